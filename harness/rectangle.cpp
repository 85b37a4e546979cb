// C27: rectangle algebra against pointwise membership and exact separating-axis tests.
#include "geom.hpp"

#include <ostream>
#include <sstream>
#include <teiacare/sdk/geometry/rectangle.hpp>

namespace pbt
{
const char* const rule = "two rectangles (nested, crossing, touching, apart, null) of int, long, float or double, points on and around their borders, and a line segment; "
                         "non-trivial = the rectangles overlap or touch, or the segment meets the rectangle with both ends outside";
using namespace geom;
struct Box
{
    int64_t x, y, w, h;
};

template <typename T>
static void run(Src& src, Ctx& ctx)
{
    using R = tc::sdk::rectangle<T>;
    using P = tc::sdk::point<T>;
    auto mk = [](int64_t k) { return Grid<T>::make(k); };
    const int64_t g = 1 + (int64_t)src.below(2); // 2: there are points strictly between any two coordinates
    auto gen = [&]() {
        Box b;
        b.x = g * coord(src, 2000), b.y = g * coord(src, 2000);
        b.w = g * (1 + (int64_t)src.below(src.coin() ? 6 : 1000)), b.h = g * (1 + (int64_t)src.below(src.coin() ? 6 : 1000));
        if (src.chance(1, 12))
            b.w = b.h = 0;
        return b;
    };
    const Box a = gen();
    Box b = gen();
    switch (src.below(5))
    {
    case 0:
        break;
    case 1: // inside or sticking out a little
        b.x = a.x + g * src.range(-2, 2), b.y = a.y + g * src.range(-2, 2);
        b.w = std::max<int64_t>(g, a.w + g * src.range(-3, 3)), b.h = std::max<int64_t>(g, a.h + g * src.range(-3, 3));
        break;
    case 2: // near a corner
        b.x = a.x + (src.coin() ? a.w : -b.w) + g * src.range(-1, 1), b.y = a.y + (src.coin() ? a.h : -b.h) + g * src.range(-1, 1);
        break;
    case 3: // a cross
        b.x = a.x - g * (int64_t)src.below(5), b.w = a.w + g * (int64_t)src.below(20);
        b.y = a.y + a.h / 4 * g, b.h = std::max<int64_t>(g, a.h / 4 * g);
        break;
    default:
        b.x = a.x + g * src.range(-8, 8), b.y = a.y + g * src.range(-8, 8);
    }
    const bool an = a.w == 0, bn = b.w == 0;
    ctx.notef("[%lld,%lld %lldx%lld] [%lld,%lld %lldx%lld]", (long long)a.x, (long long)a.y, (long long)a.w, (long long)a.h, (long long)b.x, (long long)b.y, (long long)b.w, (long long)b.h);
    const R A(mk(a.x), mk(a.y), mk(a.w), mk(a.h)), B(P(mk(b.x), mk(b.y)), mk(b.w), mk(b.h));
    // observers
    CHECK(A.width() == mk(a.w) && A.height() == mk(a.h), "dimensions");
    CHECK(A.top_left() == P(mk(a.x), mk(a.y)) && A.top_right() == P(mk(a.x + a.w), mk(a.y)) && A.bottom_left() == P(mk(a.x), mk(a.y + a.h)) &&
              A.bottom_right() == P(mk(a.x + a.w), mk(a.y + a.h)),
          "corners of ", A.to_string());
    CHECK(A.size() == tc::sdk::size<T>(mk(a.w), mk(a.h)), "size");
    CHECK(A.is_null() == an, "is_null");
    if (a.w < 2000 && a.h < 2000)
        CHECK((double)A.area() == (double)mk(a.w) * (double)mk(a.h), "area() = ", A.area());
    {
        const auto c = A.center();
        CHECK(c.x() == (double)mk(a.x) + (double)mk(a.w) / 2 && c.y() == (double)mk(a.y) + (double)mk(a.h) / 2, "center() = ", c.to_string());
    }
    const bool eq = a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
    CHECK((A == B) == eq && (A != B) == !eq, "comparison");
    const std::string want = "(" + num(mk(a.x)) + ", " + num(mk(a.y)) + ") : (" + num(mk(a.w)) + "x" + num(mk(a.h)) + ")";
    CHECK(A.to_string() == want, "to_string() = ", A.to_string());
    std::ostringstream os;
    os << A;
    CHECK(os.str() == want, "operator<< prints ", os.str());
    // overlap and its algebra
    const bool meet = !an && !bn && a.x < b.x + b.w && b.x < a.x + a.w && a.y < b.y + b.h && b.y < a.y + a.h;
    const bool touch = !an && !bn && a.x <= b.x + b.w && b.x <= a.x + a.w && a.y <= b.y + b.h && b.y <= a.y + a.h;
    CHECK(A.intersects(B) == meet && B.intersects(A) == meet, "intersects = ", A.intersects(B), "/", B.intersects(A), ", expected ", meet);
    const R I = A.get_intersection(B), J = B.get_intersection(A);
    if (meet)
    {
        const int64_t x = std::max(a.x, b.x), y = std::max(a.y, b.y), r = std::min(a.x + a.w, b.x + b.w), d = std::min(a.y + a.h, b.y + b.h);
        CHECK(I == R(mk(x), mk(y), mk(r - x), mk(d - y)), "intersection is ", I.to_string());
        CHECK(J == I, "intersection is not commutative");
    }
    else
    {
        CHECK((double)I.width() >= 0 && (double)I.height() >= 0 && (double)J.width() >= 0 && (double)J.height() >= 0, "intersection of rectangles that do not overlap is ", I.to_string(), " / ", J.to_string());
        CHECK((double)I.width() * (double)I.height() == 0 && (double)J.width() * (double)J.height() == 0, "intersection of rectangles that do not overlap is ", I.to_string());
    }
    const R U = A.get_union(B), V = B.get_union(A);
    if (an && bn)
        CHECK((double)U.width() * (double)U.height() == 0, "union of two null rectangles is ", U.to_string());
    else if (an || bn)
        CHECK(U == (an ? B : A) && V == U, "union with a null rectangle is ", U.to_string());
    else
    {
        const int64_t x = std::min(a.x, b.x), y = std::min(a.y, b.y), r = std::max(a.x + a.w, b.x + b.w), d = std::max(a.y + a.h, b.y + b.h);
        CHECK(U == R(mk(x), mk(y), mk(r - x), mk(d - y)), "union is ", U.to_string());
        CHECK(V == U, "union is not commutative");
    }
    // containment of a rectangle: strictly inside is, sticking out is not (shared borders are a matter of definition)
    if (!an && !bn)
    {
        if (a.x < b.x && a.y < b.y && a.x + a.w > b.x + b.w && a.y + a.h > b.y + b.h)
            CHECK(A.contains(B), "a rectangle strictly inside is not contained");
        if (b.x < a.x || b.y < a.y || b.x + b.w > a.x + a.w || b.y + b.h > a.y + a.h)
            CHECK(!A.contains(B), "a rectangle that sticks out is contained");
    }
    // points: strict containment, and membership in the intersection
    auto point = [&](int64_t x, int64_t y) {
        const P p(mk(x), mk(y));
        auto in = [](const Box& r, int64_t px, int64_t py) { return px > r.x && px < r.x + r.w && py > r.y && py < r.y + r.h; };
        CHECK(A.contains(p) == in(a, x, y), "contains", p.to_string(), " = ", A.contains(p));
        CHECK(I.contains(p) == (in(a, x, y) && in(b, x, y)), "membership of ", p.to_string(), " in the intersection");
        if (in(a, x, y) || in(b, x, y))
            CHECK(U.contains(p), p.to_string(), " is not in the union");
    };
    for (int64_t x : {a.x, a.x + a.w, b.x, b.x + b.w})
        for (int64_t y : {a.y, a.y + a.h, b.y, b.y + b.h})
            for (int64_t dx = -1; dx <= 1; ++dx)
                for (int64_t dy = -1; dy <= 1; ++dy)
                    point(x + dx, y + dy);
    for (int i = 0; i < 3; ++i)
    {
        const int64_t px = a.x + src.range(-3, a.w + 3), py = a.y + src.range(-3, a.h + 3);
        point(px, py);
    }
    // a segment
    bool through = false;
    if (!an)
    {
        auto end = [&](int64_t& x, int64_t& y) {
            x = src.chance(1, 3) ? src.pick(std::vector<int64_t>{a.x, a.x + a.w, a.x + a.w / 2}) : a.x + src.range(-10, a.w + 10);
            y = src.chance(1, 3) ? src.pick(std::vector<int64_t>{a.y, a.y + a.h, a.y + a.h / 2}) : a.y + src.range(-10, a.h + 10);
        };
        int64_t sx, sy, ex, ey;
        end(sx, sy);
        end(ex, ey);
        const bool clear = src.chance(1, 3);
        if (clear) // start well outside
            sx = a.x - 2 - (int64_t)src.below(50), sy = a.y + src.range(-60, a.h + 60);
        const __int128 nx = ey - sy, ny = sx - ex; // normal of the segment
        __int128 mn = 0, mx = 0;
        bool first = true;
        for (int64_t cx : {a.x, a.x + a.w})
            for (int64_t cy : {a.y, a.y + a.h})
            {
                const __int128 v = nx * (cx - sx) + ny * (cy - sy);
                mn = first || v < mn ? v : mn;
                mx = first || v > mx ? v : mx;
                first = false;
            }
        const int64_t lx = std::min(sx, ex), hx = std::max(sx, ex), ly = std::min(sy, ey), hy = std::max(sy, ey);
        const bool degenerate = sx == ex && sy == ey;
        const bool apart = hx < a.x || lx > a.x + a.w || hy < a.y || ly > a.y + a.h || (!degenerate && (mn > 0 || mx < 0));
        const bool inside = !(hx <= a.x || lx >= a.x + a.w || hy <= a.y || ly >= a.y + a.h || (!degenerate && (mn >= 0 || mx <= 0)));
        ctx.notef(" segment (%lld,%lld)-(%lld,%lld)", (long long)sx, (long long)sy, (long long)ex, (long long)ey);
        const tc::sdk::line<T> L(P(mk(sx), mk(sy)), P(mk(ex), mk(ey))), M(P(mk(ex), mk(ey)), P(mk(sx), mk(sy)));
        if (inside)
            CHECK(A.intersects(L) && A.intersects(M), "a segment through the rectangle does not intersect it");
        if (apart)
            CHECK(!A.intersects(L) && !A.intersects(M), "a segment apart from the rectangle intersects it");
        through = inside && !A.contains(L.start()) && !A.contains(L.end());
        if (through)
            ctx.label("segment through");
    }
    // moving
    {
        const int64_t dx = coord(src, 1000), dy = coord(src, 1000);
        R m(A);
        m.translate(mk(dx), mk(dy));
        const R moved(mk(a.x + dx), mk(a.y + dy), mk(a.w), mk(a.h));
        CHECK(m == moved, "translate gives ", m.to_string());
        CHECK(A.translated(mk(dx), mk(dy)) == moved, "translated gives ", A.translated(mk(dx), mk(dy)).to_string());
        CHECK(A.top_left() == P(mk(a.x), mk(a.y)), "translated() changed the rectangle");
        m.translate(mk(-dx), mk(-dy));
        CHECK(m == A, "translating back does not restore the rectangle");
        CHECK(A.translated(mk(dx), mk(dy)).intersects(B.translated(mk(dx), mk(dy))) == meet, "overlap changes under a common translation");
        m.set_position(P(mk(dx), mk(dy)));
        CHECK(m == R(mk(dx), mk(dy), mk(a.w), mk(a.h)), "set_position");
        m.set_width(mk(b.w));
        CHECK(m == R(mk(dx), mk(dy), mk(b.w), mk(a.h)), "set_width");
        m.set_height(mk(b.h));
        CHECK(m == R(mk(dx), mk(dy), mk(b.w), mk(b.h)), "set_height");
        m.set_size(mk(a.w), mk(a.h));
        CHECK(m == R(mk(dx), mk(dy), mk(a.w), mk(a.h)), "set_size");
        m.set_size(mk(b.w + 2), mk(b.h + 4));
        CHECK(m == R(mk(dx), mk(dy), mk(b.w + 2), mk(b.h + 4)), "set_size");
        // null: no dimension is positive
        const int64_t w = g * src.range(-2, 2), h = g * src.range(-2, 2);
        CHECK(R(mk(dx), mk(dy), mk(w), mk(h)).is_null() == (w <= 0 && h <= 0), "is_null() of ", w, "x", h);
    }
    ctx.label(an || bn ? "null" : meet ? "overlap" : touch ? "touch" : "apart");
    ctx.nontrivial(touch || through);
}

void property_case(Src& src, Ctx& ctx)
{
    switch (src.below(4))
    {
    case 0:
        ctx.note("int ");
        return run<int>(src, ctx);
    case 1:
        ctx.note("double ");
        return run<double>(src, ctx);
    case 2:
        ctx.note("float ");
        return run<float>(src, ctx);
    default:
        ctx.note("long ");
        return run<long>(src, ctx);
    }
}
}
