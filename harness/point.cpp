// C25: min/max, point and size: exact arithmetic on coordinates, metric laws of the distance.
#include "geom.hpp"

#include <sstream>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/math.hpp>

namespace pbt
{
const char* const rule = "points, sizes and operands of int, long, float or double on an exactly representable grid, and a generated chain of point operations; "
                         "non-trivial = the chain has at least two operations or a truncating division / scaling";
using namespace geom;

template <typename T>
static void minmax(Src& src, Ctx& ctx)
{
    T v[4];
    int64_t k[4];
    for (int i = 0; i < 4; ++i)
    {
        k[i] = i && src.chance(1, 4) ? k[src.below((uint64_t)i)] : coord(src, 100000);
        v[i] = Grid<T>::make(k[i]);
        ctx.notef(" %s", num(v[i]).c_str());
    }
    for (int n = 2; n <= 4; ++n)
    {
        T hi = v[0], lo = v[0];
        for (int i = 1; i < n; ++i)
        {
            if (v[i] > hi)
                hi = v[i];
            if (v[i] < lo)
                lo = v[i];
        }
        const T a = n == 2 ? tc::sdk::max(v[0], v[1]) : n == 3 ? tc::sdk::max(v[0], v[1], v[2]) : tc::sdk::max(v[0], v[1], v[2], v[3]);
        const T b = n == 2 ? tc::sdk::min(v[0], v[1]) : n == 3 ? tc::sdk::min(v[0], v[1], v[2]) : tc::sdk::min(v[0], v[1], v[2], v[3]);
        CHECK(a == hi, "max of ", n, " values is ", a, ", expected ", hi);
        CHECK(b == lo, "min of ", n, " values is ", b, ", expected ", lo);
    }
    ctx.label("min/max");
    ctx.nontrivial();
}

template <typename T>
static void at(const tc::sdk::point<T>& p, T x, T y, const char* how)
{
    CHECK(p.x() == x && p.y() == y, how, ": (", p.x(), ", ", p.y(), "), expected (", x, ", ", y, ")");
    CHECK(p.is_origin() == (x == T() && y == T()), how, ": is_origin of (", x, ", ", y, ")");
}

template <typename T>
static void points(Src& src, Ctx& ctx)
{
    using P = tc::sdk::point<T>;
    auto c = [&] { return Grid<T>::make(coord(src, 8000)); };
    T x = c(), y = c();
    P p(x, y);
    at(P(), T(), T(), "default");
    at(p, x, y, "constructed");
    ctx.notef("point(%s, %s)", num(x).c_str(), num(y).c_str());
    const int steps = 1 + (int)src.below(5);
    bool trunc = false;
    for (int i = 0; i < steps; ++i)
    {
        // keep the magnitude small: overflow of the coordinate type is outside the domain
        if (std::abs((double)x) > 100000 || std::abs((double)y) > 100000)
            break;
        const size_t op = src.below(10);
        const T a = c(), b = src.chance(1, 4) ? a : c();
        const P before(p);
        switch (op)
        {
        case 0: {
            ctx.notef(" +(%s, %s)", num(a).c_str(), num(b).c_str());
            const P r = p + P(a, b);
            at(p, x, y, "operand of +");
            x += a, y += b;
            at(r, x, y, "+");
            p = r;
            break;
        }
        case 1: {
            ctx.notef(" -(%s, %s)", num(a).c_str(), num(b).c_str());
            const P r = p - P(a, b);
            at(p, x, y, "operand of -");
            x -= a, y -= b;
            at(r, x, y, "-");
            p = r;
            break;
        }
        case 2: {
            ctx.notef(" +=(%s, %s)", num(a).c_str(), num(b).c_str());
            P& r = p += P(a, b);
            CHECK(&r == &p, "+= does not return its operand");
            x += a, y += b;
            at(p, x, y, "+=");
            p -= P(a, b);
            CHECK(p == before, "-= does not undo +=");
            p += P(a, b);
            break;
        }
        case 3: {
            ctx.notef(" add_delta(%s, %s)", num(a).c_str(), num(b).c_str());
            p.add_delta(a, b);
            x += a, y += b;
            at(p, x, y, "add_delta");
            p.sub_delta(a, b);
            CHECK(p == before, "sub_delta does not undo add_delta");
            p.add_delta(a, b);
            break;
        }
        case 4: {
            ctx.notef(" -=/sub_delta(%s, %s)", num(a).c_str(), num(b).c_str());
            P s(p);
            s.sub_delta(a, b);
            P& r = p -= P(a, b);
            CHECK(&r == &p, "-= does not return its operand");
            x -= a, y -= b;
            at(p, x, y, "-=");
            at(s, x, y, "sub_delta");
            break;
        }
        case 5: {
            const int k = (int)src.range(-9, 9);
            ctx.notef(" * %d", k);
            const P r = p * k;
            at(p, x, y, "operand of *");
            p *= k;
            x = (T)(x * k), y = (T)(y * k);
            at(r, x, y, "* int");
            at(p, x, y, "*= int");
            break;
        }
        case 6: {
            const double k = (double)src.range(-16, 16) / 4.0;
            ctx.notef(" * %g", k);
            const P r = p * k;
            p *= k;
            x = (T)(x * k), y = (T)(y * k);
            trunc |= std::is_integral_v<T>;
            at(r, x, y, "* double");
            at(p, x, y, "*= double");
            break;
        }
        case 7: {
            const double k = src.pick(std::vector<double>{0.5, 2.0, -0.5, 4.0, 0.25, -2.0, 1.0});
            ctx.notef(" / %g", k);
            const P r = p / k;
            at(p, x, y, "operand of /");
            p /= k;
            x = (T)(x / k), y = (T)(y / k);
            trunc |= std::is_integral_v<T>;
            at(r, x, y, "/ double");
            at(p, x, y, "/= double");
            break;
        }
        case 8: {
            if (!std::is_integral_v<T>)
                break;
            int k = (int)src.range(-9, 9);
            if (!k)
                k = 7;
            ctx.notef(" / %d", k);
            const P r = p / k;
            p /= k;
            x = (T)(x / k), y = (T)(y / k);
            trunc = true;
            at(r, x, y, "/ int");
            at(p, x, y, "/= int");
            break;
        }
        default: {
            ctx.notef(" set(%s, %s)", num(a).c_str(), num(b).c_str());
            p.set_x(a);
            at(p, a, y, "set_x");
            p.set_y(b);
            x = a, y = b;
            at(p, x, y, "set_y");
        }
        }
    }
    // comparison and text
    {
        const T a = src.coin() ? x : c(), b = src.coin() ? y : c();
        const P o(a, b);
        CHECK((p == o) == (x == a && y == b), "== of (", x, ",", y, ") and (", a, ",", b, ")");
        CHECK((p != o) == !(x == a && y == b), "!= of (", x, ",", y, ") and (", a, ",", b, ")");
        const P m(std::move(P(p)));
        CHECK(m == p, "a moved copy differs");
        const std::string want = "(" + num(x) + ", " + num(y) + ")";
        CHECK(p.to_string() == want, "to_string() = ", p.to_string(), ", expected ", want);
        std::ostringstream os;
        os << p;
        CHECK(os.str() == want, "operator<< prints ", os.str());
    }
    // the distance is a metric
    {
        const T ax = c(), ay = c(), bx = c(), by = c(), cx = src.coin() ? ax : c(), cy = src.coin() ? by : c();
        ctx.notef(" distances of (%s,%s) (%s,%s) (%s,%s)", num(ax).c_str(), num(ay).c_str(), num(bx).c_str(), num(by).c_str(), num(cx).c_str(), num(cy).c_str());
        const P A(ax, ay), B(bx, by), C(cx, cy);
        auto exact = [](T x1, T y1, T x2, T y2) {
            const long double dx = (long double)x1 - x2, dy = (long double)y1 - y2;
            return std::sqrt(dx * dx + dy * dy);
        };
        auto near = [&](T got, long double want, const char* what) {
            if (std::is_integral_v<T>)
                CHECK((long double)got == std::floor(want), what, " = ", got, ", exact value ", (double)want);
            else
                CHECK(std::abs((long double)got - want) <= want * (sizeof(T) == 4 ? 1e-6L : 1e-14L), what, " = ", got, ", exact value ", (double)want);
        };
        near(A.distance(B), exact(ax, ay, bx, by), "distance");
        near(A.distance_from_origin(), exact(ax, ay, T(), T()), "distance_from_origin");
        CHECK(A.distance(B) == B.distance(A), "distance is not symmetric");
        CHECK(A.distance(A) == T(), "distance to itself is ", A.distance(A));
        CHECK(A.distance_from_origin() == A.distance(P()), "distance_from_origin is not the distance from the origin");
        const double tol = std::is_integral_v<T> ? 2.0 : 1e-5 * (1.0 + (double)A.distance(B) + (double)B.distance(C));
        CHECK((double)A.distance(C) <= (double)A.distance(B) + (double)B.distance(C) + tol, "triangle inequality broken");
    }
    ctx.label("point");
    ctx.nontrivial(steps >= 2 || trunc);
}

template <typename T>
static void sizes(Src& src, Ctx& ctx)
{
    using S = tc::sdk::size<T>;
    auto c = [&] { return Grid<T>::make(coord(src, 100000)); };
    const T w = c(), h = src.chance(1, 3) ? T() : c();
    const T a = src.coin() ? w : c(), b = src.coin() ? h : c();
    ctx.notef("size %sx%s vs %sx%s", num(w).c_str(), num(h).c_str(), num(a).c_str(), num(b).c_str());
    S s(w, h);
    CHECK(s.width() == w && s.height() == h, "size is ", s.width(), "x", s.height());
    CHECK(S().width() == T() && S().height() == T() && S().is_null(), "default size is not null");
    CHECK(s.is_null() == (w == T() && h == T()), "is_null of ", w, "x", h);
    CHECK((s == S(a, b)) == (w == a && h == b), "== of sizes");
    CHECK((s != S(a, b)) == !(w == a && h == b), "!= of sizes");
    const std::string want = "(" + num(w) + "x" + num(h) + ")";
    CHECK(s.to_string() == want, "to_string() = ", s.to_string(), ", expected ", want);
    std::ostringstream os;
    os << s;
    CHECK(os.str() == want, "operator<< prints ", os.str());
    S t(s);
    t.set_width(a);
    CHECK(t.width() == a && t.height() == h && s.width() == w, "set_width");
    t.set_height(b);
    CHECK(t.width() == a && t.height() == b && s.height() == h, "set_height");
    s = t;
    CHECK(s == t && s.width() == a && s.height() == b, "assigned size differs");
    ctx.label("size");
    ctx.nontrivial(w != h);
}

template <typename T>
static void all(Src& src, Ctx& ctx)
{
    switch (src.weighted({5, 2, 1}))
    {
    case 0:
        points<T>(src, ctx);
        break;
    case 1:
        minmax<T>(src, ctx);
        break;
    default:
        sizes<T>(src, ctx);
    }
}

void property_case(Src& src, Ctx& ctx)
{
    switch (src.below(4))
    {
    case 0:
        ctx.note("int ");
        all<int>(src, ctx);
        break;
    case 1:
        ctx.note("double ");
        all<double>(src, ctx);
        break;
    case 2:
        ctx.note("float ");
        all<float>(src, ctx);
        break;
    default:
        ctx.note("long ");
        all<long>(src, ctx);
    }
}
}
