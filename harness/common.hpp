// Shared by the harnesses.
#pragma once
#include "rt.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>

namespace h {

inline bool close(double a, double b, double tol = 1e-9)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
inline long diff_at(const std::vector<double>& a, const std::vector<double>& b, double tol = 1e-9)
{
    if (a.size() != b.size()) return long(std::min(a.size(), b.size()));
    for (std::size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], tol)) return long(i);
    return -1;
}
inline std::string show(const std::vector<double>& v, std::size_t max = 8)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < max; ++i) { char b[40]; std::snprintf(b, sizeof b, "%s%.10g", i ? " " : "", v[i]); s += b; }
    return s + (v.size() > max ? " ...]" : "]");
}
inline uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

// What a call did.
struct Outcome { bool threw = false; std::string what; bool bad_alloc = false; };
template<class F> Outcome attempt(F&& f)
{
    Outcome o;
    try { f(); }
    catch (const std::bad_alloc& e) { o.threw = true; o.bad_alloc = true; o.what = "bad_alloc"; }
    catch (const std::exception& e) { o.threw = true; o.what = std::string("exception: ") + std::string(e.what()).substr(0, 80); }
    catch (...) { o.threw = true; o.what = "unknown exception"; }
    return o;
}

} // namespace h
