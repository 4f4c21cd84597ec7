// Puts a schema at a place deep inside another one, and the instance at the
// corresponding place of another document, so that the verdict is that of the
// inner pair (or, through 'not', its opposite).
#pragma once
#include "common.hpp"

namespace vc {
struct Wrapped {
    J schema, doc;
    bool inverted = false;
    std::string how;
};
inline void wrapOnce(Src &s, Draft d, Wrapped &w) {
    const bool d7 = d == Draft::D7, d3 = d == Draft::D3;
    auto never = [&]() { return d7 && s.coin() ? J(false) : d3 ? J::obj({{"type", J::arr()}}) : J::obj({{"not", J::obj()}}); };
    auto always = [&]() { return d7 && s.coin() ? J(true) : J::obj(); };
    J in = w.schema;
    const std::string name = s.pick({std::string("a"), std::string("0"), std::string("a/b"), std::string(""), std::string("length")});
    auto member = [&](J v) { J o = J::obj(); o.set(name, std::move(v)); return o; };
    std::vector<int> can{0, 1, 2, 3, 4, 5, 6};
    if (d3) { can.push_back(20); can.push_back(21); can.push_back(22); }
    else for (int k : {7, 8, 9, 10, 11}) can.push_back(k);
    if (d7) { for (int k : {12, 13, 14, 15, 16}) can.push_back(k); if (w.doc.isStr()) { can.push_back(17); can.push_back(17); can.push_back(17); } }
    int k = can[s.below(can.size())];
    w.how += " " + std::to_string(k);
    switch (k) {
    case 0: w.schema = J::obj({{"properties", member(in)}}); w.doc = member(w.doc); break;
    case 1: w.schema = J::obj({{"patternProperties", J::obj({{"", in}})}}); w.doc = member(w.doc); break;
    case 2: w.schema = J::obj({{"additionalProperties", in}}); w.doc = member(w.doc); break;
    case 3: w.schema = J::obj({{"items", in}}); w.doc = J::arr({w.doc}); break;
    case 4: w.schema = J::obj({{"items", J::arr({J::obj(), in})}}); w.doc = J::arr({J(1), w.doc}); break;
    case 5: w.schema = J::obj({{"items", J::arr({J::obj()})}, {"additionalItems", in}}); w.doc = J::arr({J(1), w.doc}); break;
    case 6: w.schema = J::obj({{"dependencies", member(in)}}); w.schema = J::obj({{"properties", member(w.schema)}}); // the inner instance must be an object with that member
        if (w.doc.isObj() && w.doc.has(name)) { w.doc = member(w.doc); break; }
        w.schema = J::obj({{"properties", member(in)}}); w.doc = member(w.doc); break;
    case 7: w.schema = J::obj({{"allOf", J::arr({always(), in})}}); break;
    case 8: w.schema = J::obj({{"anyOf", J::arr({never(), in})}}); break;
    case 9: w.schema = J::obj({{"oneOf", J::arr({in, never()})}}); break;
    case 10: w.schema = J::obj({{"not", in}}); w.inverted = !w.inverted; break;
    case 11: w.schema = J::obj({{"not", J::obj({{"not", in}})}}); break;
    case 12: w.schema = J::obj({{"contains", in}}); w.doc = J::arr({w.doc}); break;
    case 13: w.schema = J::obj({{"if", in}, {"then", J(true)}, {"else", J(false)}}); break;
    case 14: w.schema = J::obj({{"if", in}, {"then", J(false)}}); w.inverted = !w.inverted; break;
    case 15: w.schema = J::obj({{"if", J(true)}, {"then", in}}); break;
    case 16: w.schema = J::obj({{"if", J(false)}, {"else", in}}); break;
    case 17: { J o = J::obj(); o.set(w.doc.s, J(1)); w.schema = J::obj({{"propertyNames", in}}); w.doc = o; break; }
    case 20: w.schema = J::obj({{"extends", J::arr({J::obj(), in})}}); break;
    case 21: w.schema = J::obj({{"type", J::arr({in})}}); break;
    default: w.schema = J::obj({{"extends", in}}); break;
    }
}
inline Wrapped wrapped(Src &s, Draft d, const J &schema, const J &doc, int most = 4) {
    Wrapped w{schema, doc, false, ""};
    for (int n = s.range(1, most); n > 0; n--) wrapOnce(s, d, w);
    return w;
}
} // namespace vc
