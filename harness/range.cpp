// C26: linear range as a half-open interval, against pointwise membership on a grid finer than the coordinates.
#include "geom.hpp"

#include <ostream>
#include <sstream>
#include <teiacare/sdk/geometry/range.hpp>

namespace pbt
{
const char* const rule = "two ranges min<=max (equal, nested, touching, overlapping or apart) of int, long, float or double and a chain of set_min/set_max; "
                         "non-trivial = the ranges overlap, touch or are nested, or a setter drags the other bound along";
using namespace geom;

template <typename T>
static void run(Src& src, Ctx& ctx)
{
    using R = tc::sdk::range<T>;
    const int64_t g = 1 + (int64_t)src.below(2); // 2: there are points strictly between any two bounds
    auto mk = [g](int64_t k) { return Grid<T>::make(k * g); };
    int64_t a = coord(src, 5000), b = a + (src.chance(1, 5) ? 0 : (int64_t)src.below(src.coin() ? 8 : 3000));
    int64_t c, d;
    switch (src.below(4))
    {
    case 0:
        c = coord(src, 5000), d = c + (int64_t)src.below(12);
        break;
    case 1:
        c = src.range(a, b), d = src.range(c, b);
        break;
    case 2:
        c = src.coin() ? b : a - (int64_t)src.below(5), d = c == b ? b + (int64_t)src.below(5) : a;
        break;
    default:
        c = a + src.range(-2, 2), d = std::max(c, b + src.range(-2, 2));
    }
    ctx.notef("[%lld,%lld) [%lld,%lld)", (long long)a, (long long)b, (long long)c, (long long)d);
    const R A(mk(a), mk(b)), B(mk(c), mk(d));
    CHECK(A.min() == mk(a) && A.max() == mk(b), "bounds");
    CHECK(R().min() == T() && R().max() == T() && R().is_null(), "default range");
    CHECK(A.is_null() == (a == b), "is_null");
    CHECK(A.lenght() == mk(b - a), "lenght() = ", A.lenght());
    CHECK((A == B) == (a == c && b == d) && (A != B) == !(a == c && b == d), "comparison");
    CHECK(A.contains(B) == (a <= c && b >= d), "contains(range) = ", A.contains(B));
    // half-open membership decides overlap
    const bool meet = c < b && a < d;
    CHECK(A.contains(A), "a range does not contain itself");
    if (a < b && c < d) // what an empty range intersects is a matter of definition
    {
        CHECK(A.intersects(B) == meet && B.intersects(A) == meet, "intersects = ", A.intersects(B), "/", B.intersects(A));
        const R I = A.get_intersection(B), J = B.get_intersection(A);
        CHECK(I == J, "intersection is not commutative");
        if (meet)
        {
            CHECK(I.min() == mk(std::max(a, c)) && I.max() == mk(std::min(b, d)), "intersection is ", I.to_string());
            CHECK(A.contains(I) && B.contains(I), "intersection is not inside its operands");
        }
        else
            CHECK(I.is_null(), "intersection of ranges that do not meet is ", I.to_string());
    }
    const R U = A.get_union(B);
    CHECK(U == B.get_union(A), "union is not commutative");
    CHECK(U.min() == mk(std::min(a, c)) && U.max() == mk(std::max(b, d)), "union is ", U.to_string());
    CHECK(U.contains(A) && U.contains(B), "union does not contain its operands");
    auto points = [&](int64_t k, int half) {
        if (g == 1 && half)
            return;
        const T v = (T)(Grid<T>::make(k * g) + (half ? Grid<T>::make(1) : T()));
        const bool in = half ? a <= k && k < b : a <= k && k < b;
        CHECK(A.contains(v) == in, "contains(", v, ") = ", A.contains(v));
        const T cl = A.clamp(v);
        const T want = v < mk(a) ? mk(a) : v > mk(b) ? mk(b) : v;
        CHECK(cl == want, "clamp(", v, ") = ", cl, ", expected ", want);
        CHECK(A.clamp(cl) == cl, "clamp is not idempotent");
        if (a < b && c < d && meet)
            CHECK(A.get_intersection(B).contains(v) == (A.contains(v) && B.contains(v)), "membership of ", v, " in the intersection");
        if (A.contains(v) || B.contains(v))
            CHECK(U.contains(v), v, " is not in the union");
    };
    for (int64_t k : {a, b, c, d})
        for (int64_t e = -1; e <= 1; ++e)
            points(k + e, 0), points(k + e, 1);
    for (int i = 0; i < 4; ++i)
    {
        const int64_t k = coord(src, 6000);
        points(k, (int)src.below(2));
    }
    // remap of a normalised value is affine: 0 -> min, 1 -> max
    CHECK(A.map(0.0) == (double)mk(a) && A.map(1.0) == (double)mk(b), "map(0) = ", A.map(0.0), ", map(1) = ", A.map(1.0));
    {
        const int64_t q = src.range(-8, 16);
        const double v = (double)q / 8.0;
        const double want = (double)mk(a) + v * ((double)mk(b) - (double)mk(a));
        CHECK(std::abs(A.map(v) - want) <= 1e-9 * (1 + std::abs(want)), "map(", v, ") = ", A.map(v), ", expected ", want);
    }
    const std::string want = "(" + num(mk(a)) + ":" + num(mk(b)) + ")";
    CHECK(A.to_string() == want, "to_string() = ", A.to_string());
    std::ostringstream os;
    os << A;
    CHECK(os.str() == want, "operator<< prints ", os.str());
    // setters keep min <= max by moving the other bound
    R s(A);
    int64_t lo = a, hi = b;
    const int steps = (int)src.below(6);
    bool drag = false;
    for (int i = 0; i < steps; ++i)
    {
        const int64_t k = src.coin() ? src.range(lo - 3, hi + 3) : coord(src, 5000);
        if (src.coin())
        {
            ctx.notef(" min=%lld", (long long)k);
            s.set_min(mk(k));
            lo = k;
            if (hi < lo)
                hi = lo, drag = true;
        }
        else
        {
            ctx.notef(" max=%lld", (long long)k);
            s.set_max(mk(k));
            hi = k;
            if (hi < lo)
                lo = hi, drag = true;
        }
        CHECK(s.min() == mk(lo) && s.max() == mk(hi), "after the setter the range is ", s.to_string(), ", expected [", mk(lo), ",", mk(hi), ")");
        CHECK(A.min() == mk(a) && A.max() == mk(b), "a setter changed the copied range");
    }
    ctx.label(meet ? "overlap" : "apart");
    ctx.nontrivial(meet || drag || b == c || a == d);
}

void property_case(Src& src, Ctx& ctx)
{
    switch (src.below(4))
    {
    case 0:
        ctx.note("int ");
        return run<int>(src, ctx);
    case 1:
        ctx.note("double ");
        return run<double>(src, ctx);
    case 2:
        ctx.note("float ");
        return run<float>(src, ctx);
    default:
        ctx.note("long ");
        return run<long>(src, ctx);
    }
}
}
