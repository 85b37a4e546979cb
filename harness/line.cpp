// C28: segment intersection against exact rational arithmetic.
#include "geom.hpp"

#include <ostream>
#include <sstream>
#include <teiacare/sdk/geometry/line.hpp>

namespace pbt
{
const char* const rule = "two segments (crossing, meeting in an end point, passing just beside it, parallel, collinear, degenerate) of int, long, float or double; "
                         "non-trivial = they meet, or their lines cross within one of the segments, or they are parallel";
using namespace geom;
using i128 = __int128;

// x*a + y*b == gcd(a, b)
static int64_t egcd(int64_t a, int64_t b, int64_t& x, int64_t& y)
{
    if (b == 0)
        return x = 1, y = 0, a;
    int64_t u, v;
    const int64_t g = egcd(b, a % b, u, v);
    return x = v, y = u - a / b * v, g;
}

template <typename T>
static void run(Src& src, Ctx& ctx)
{
    using P = tc::sdk::point<T>;
    using L = tc::sdk::line<T>;
    auto mk = [](int64_t k) { return Grid<T>::make(k); };
    auto c = [&] { return coord(src, 3000); };
    int64_t ax = c(), ay = c(), bx = c(), by = c(), cx = c(), cy = c(), dx = c(), dy = c();
    switch (src.below(8))
    {
    case 0:
        break;
    case 6: // far apart
        for (int64_t* v : {&ax, &ay, &bx, &by, &cx, &cy, &dx, &dy})
            *v = src.range(-(1 << 20), 1 << 20);
        break;
    case 7: // a long segment, and another that ends on the grid point nearest to it or on it (then goes on through it or turns away)
    {
        int64_t ux = src.range(1, 1 << 19), uy = src.range(1, 1 << 19), x, y;
        const int64_t g = egcd(ux, uy, x, y); // x*ux + y*uy == g
        ux /= g, uy /= g;
        int64_t px = -y, py = x; // ux*py - uy*px == 1
        const int64_t shift = px >= 0 ? -(px / ux) : (ux - 1 - px) / ux;
        px += shift * ux, py += shift * uy;
        if (src.coin())
            px = ux - px, py = uy - py; // the other side
        switch (src.below(4))
        {
        case 0:
            px = ux, py = uy;
            break;
        case 1:
            px = ux + src.range(-1, 1), py = uy + src.range(-1, 1);
            break;
        default:;
        }
        bx = ax + ux, by = ay + uy;
        cx = ax + px, cy = ay + py;
        dx = cx + src.range(-(1 << 19), 1 << 19), dy = cy + src.range(-(1 << 19), 1 << 19);
        if (src.coin())
            ax = -ax, bx = -bx, cx = -cx, dx = -dx;
        if (src.coin())
            std::swap(ax, ay), std::swap(bx, by), std::swap(cx, cy), std::swap(dx, dy);
        if (src.coin())
            std::swap(cx, dx), std::swap(cy, dy);
        ctx.label("nearest grid point");
        break;
    }
    case 1: // an end of one lies on (or one step beside) the other
    {
        const int64_t k = 1 + (int64_t)src.below(6), m = src.range(-1, k + 1);
        const int64_t ux = src.range(-9, 9), uy = src.range(-9, 9);
        bx = ax + ux * k, by = ay + uy * k;
        cx = ax + ux * m + (src.chance(1, 3) ? src.range(-1, 1) : 0), cy = ay + uy * m + (src.chance(1, 3) ? src.range(-1, 1) : 0);
        break;
    }
    case 2: // shares an end point
        cx = src.coin() ? ax : bx, cy = cx == ax ? ay : by;
        break;
    case 3: // parallel
    {
        const int64_t k = src.range(-3, 3);
        dx = cx + (bx - ax) * k, dy = cy + (by - ay) * k;
        break;
    }
    case 4: // collinear
    {
        const int64_t ux = src.range(-9, 9), uy = src.range(-9, 9);
        const int64_t m = src.range(-8, 8), n = src.range(-8, 8), k = src.range(-8, 8);
        bx = ax + ux * k, by = ay + uy * k;
        cx = ax + ux * m, cy = ay + uy * m, dx = ax + ux * n, dy = ay + uy * n;
        break;
    }
    default: // axis parallel
        if (src.coin())
            bx = ax;
        else
            by = ay;
        if (src.coin())
            dx = cx;
        else
            dy = cy;
    }
    ctx.notef("(%lld,%lld)-(%lld,%lld) (%lld,%lld)-(%lld,%lld)", (long long)ax, (long long)ay, (long long)bx, (long long)by, (long long)cx, (long long)cy, (long long)dx, (long long)dy);
    const L A(P(mk(ax), mk(ay)), P(mk(bx), mk(by))), B(P(mk(cx), mk(cy)), P(mk(dx), mk(dy)));
    CHECK(A.start() == P(mk(ax), mk(ay)) && A.end() == P(mk(bx), mk(by)), "ends");
    CHECK(A.is_null() == (ax == bx && ay == by), "is_null");
    CHECK(A.is_vertical() == (ax == bx), "is_vertical");
    CHECK(A.is_horizontal() == (ay == by), "is_horizontal");
    const bool same = (ax == cx && ay == cy && bx == dx && by == dy) || (ax == dx && ay == dy && bx == cx && by == cy);
    CHECK((A == B) == same && (A != B) == !same, "comparison");
    CHECK(A == L(A.end(), A.start()), "a segment differs from its reverse");
    const std::string want = "((" + num(mk(ax)) + ", " + num(mk(ay)) + ") : (" + num(mk(bx)) + ", " + num(mk(by)) + "))";
    CHECK(A.to_string() == want, "to_string() = ", A.to_string());
    std::ostringstream os;
    os << A;
    CHECK(os.str() == want, "operator<< prints ", os.str());
    // exact: A + t (B-A) = C + s (D-C)
    const i128 rx = bx - ax, ry = by - ay, qx = dx - cx, qy = dy - cy;
    const i128 den = rx * qy - ry * qx;
    const L Ar(A.end(), A.start()), Br(B.end(), B.start());
    bool nt = false;
    auto all = [&](auto f) {
        f(A.get_intersection(B), A.intersects(B), "a,b");
        f(B.get_intersection(A), B.intersects(A), "b,a");
        f(Ar.get_intersection(B), Ar.intersects(B), "reversed a,b");
        f(A.get_intersection(Br), A.intersects(Br), "a,reversed b");
        f(Br.get_intersection(Ar), Br.intersects(Ar), "reversed b,reversed a");
    };
    if (den != 0)
    {
        i128 t = (i128)(cx - ax) * qy - (i128)(cy - ay) * qx, s = (i128)(cx - ax) * ry - (i128)(cy - ay) * rx, n = den;
        if (n < 0)
            t = -t, s = -s, n = -n;
        const bool meet = t >= 0 && t <= n && s >= 0 && s <= n;
        const double unit = (double)Grid<T>::unit;
        const double px = ((double)ax + (double)t * (double)rx / (double)n) / unit, py = ((double)ay + (double)t * (double)ry / (double)n) / unit;
        all([&](std::optional<tc::sdk::point<double>> p, bool hit, const char* how) {
            CHECK(hit == meet, "intersects (", how, ") = ", hit, ", expected ", meet);
            CHECK(p.has_value() == meet, "get_intersection (", how, ") ", p ? "found " + p->to_string() : "found nothing");
            if (p)
                CHECK(std::abs(p->x() - px) <= 1e-9 * (1 + std::abs(px)) && std::abs(p->y() - py) <= 1e-9 * (1 + std::abs(py)), "get_intersection (", how, ") = (", p->x(), ", ", p->y(),
                      "), expected (", px, ", ", py, ")");
        });
        nt = meet || (t >= 0 && t <= n) || (s >= 0 && s <= n);
        ctx.label(meet ? "meet" : "apart");
    }
    else
    {
        // parallel: no common point means no intersection; when there are common points, what is reported must be one of them
        auto on = [](int64_t x, int64_t y, int64_t x1, int64_t y1, int64_t x2, int64_t y2) {
            return (i128)(x2 - x1) * (y - y1) == (i128)(y2 - y1) * (x - x1) && std::min(x1, x2) <= x && x <= std::max(x1, x2) && std::min(y1, y2) <= y && y <= std::max(y1, y2);
        };
        const bool common = on(ax, ay, cx, cy, dx, dy) || on(bx, by, cx, cy, dx, dy) || on(cx, cy, ax, ay, bx, by) || on(dx, dy, ax, ay, bx, by);
        all([&](std::optional<tc::sdk::point<double>> p, bool hit, const char* how) {
            CHECK(hit == p.has_value(), "intersects and get_intersection (", how, ") disagree");
            if (!common)
                CHECK(!hit, "parallel segments without a common point intersect (", how, ")");
        });
        nt = true;
        ctx.label(common ? "collinear" : "parallel");
    }
    L m(A);
    m.set_start(P(mk(cx), mk(cy)));
    CHECK(m.start() == B.start() && m.end() == A.end() && A.start() == P(mk(ax), mk(ay)), "set_start");
    m.set_end(P(mk(dx), mk(dy)));
    CHECK(m.start() == B.start() && m.end() == B.end() && m == B, "set_end");
    ctx.nontrivial(nt);
}

void property_case(Src& src, Ctx& ctx)
{
    switch (src.below(4))
    {
    case 0:
        ctx.note("int ");
        return run<int>(src, ctx);
    case 1:
        ctx.note("double ");
        return run<double>(src, ctx);
    case 2:
        ctx.note("float ");
        return run<float>(src, ctx);
    default:
        ctx.note("long ");
        return run<long>(src, ctx);
    }
}
}
