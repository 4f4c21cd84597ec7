// RFC 3986 reference resolution (section 5.2, strict), written from the RFC.
#pragma once
#include <string>

namespace uriref {
struct Uri {
    bool hasScheme = false, hasAuth = false, hasQuery = false, hasFrag = false;
    std::string scheme, auth, path, query, frag;
};
inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline Uri split(const std::string &t) { // RFC 3986 appendix B
    Uri u;
    size_t i = 0;
    if (!t.empty() && alpha(t[0])) {
        size_t k = 1;
        while (k < t.size() && (alpha(t[k]) || digit(t[k]) || t[k] == '+' || t[k] == '-' || t[k] == '.')) k++;
        if (k < t.size() && t[k] == ':') { u.hasScheme = true; u.scheme = t.substr(0, k); i = k + 1; }
    }
    if (t.compare(i, 2, "//") == 0) {
        size_t e = t.find_first_of("/?#", i + 2);
        if (e == std::string::npos) e = t.size();
        u.hasAuth = true;
        u.auth = t.substr(i + 2, e - i - 2);
        i = e;
    }
    size_t e = t.find_first_of("?#", i);
    if (e == std::string::npos) e = t.size();
    u.path = t.substr(i, e - i);
    i = e;
    if (i < t.size() && t[i] == '?') {
        e = t.find('#', i);
        if (e == std::string::npos) e = t.size();
        u.hasQuery = true;
        u.query = t.substr(i + 1, e - i - 1);
        i = e;
    }
    if (i < t.size() && t[i] == '#') { u.hasFrag = true; u.frag = t.substr(i + 1); }
    return u;
}
inline std::string join(const Uri &u) {
    std::string r;
    if (u.hasScheme) r += u.scheme + ":";
    if (u.hasAuth) r += "//" + u.auth;
    r += u.path;
    if (u.hasQuery) r += "?" + u.query;
    if (u.hasFrag) r += "#" + u.frag;
    return r;
}
inline std::string removeDots(std::string in) { // 5.2.4
    std::string out;
    auto starts = [&](const char *p) { return in.compare(0, strlen(p), p) == 0; };
    while (!in.empty()) {
        if (starts("../")) in.erase(0, 3);
        else if (starts("./")) in.erase(0, 2);
        else if (starts("/./")) in.erase(0, 2);
        else if (in == "/.") in = "/";
        else if (starts("/../") || in == "/..") {
            in = in == "/.." ? "/" : in.substr(3);
            size_t p = out.rfind('/');
            out.erase(p == std::string::npos ? 0 : p);
        } else if (in == "." || in == "..") in.clear();
        else {
            size_t e = in.find('/', 1);
            if (e == std::string::npos) e = in.size();
            out += in.substr(0, e);
            in.erase(0, e);
        }
    }
    return out;
}
inline std::string resolve(const std::string &base, const std::string &ref) {
    Uri b = split(base), r = split(ref), t;
    if (r.hasScheme) { t = r; t.path = removeDots(r.path); }
    else {
        if (r.hasAuth) { t = r; t.path = removeDots(r.path); }
        else {
            if (r.path.empty()) {
                t.path = b.path;
                t.hasQuery = r.hasQuery || b.hasQuery;
                t.query = r.hasQuery ? r.query : b.query;
            } else {
                if (r.path[0] == '/') t.path = removeDots(r.path);
                else {
                    std::string m;
                    if (b.hasAuth && b.path.empty()) m = "/" + r.path;
                    else { size_t p = b.path.rfind('/'); m = (p == std::string::npos ? "" : b.path.substr(0, p + 1)) + r.path; }
                    t.path = removeDots(m);
                }
                t.hasQuery = r.hasQuery;
                t.query = r.query;
            }
            t.hasAuth = b.hasAuth;
            t.auth = b.auth;
        }
        t.hasScheme = b.hasScheme;
        t.scheme = b.scheme;
    }
    t.hasFrag = r.hasFrag;
    t.frag = r.frag;
    return join(t);
}
} // namespace uriref
