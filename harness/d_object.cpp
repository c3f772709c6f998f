// C22: copies and moves are independent equal values. C27: initialising again erases the history.
#include "objects.h"
using namespace vh;
using namespace ob;

template<class A> struct pool
{
    using T = typename A::T; using M = typename A::M; static constexpr unsigned N = 5;
    struct slot { alignas(64) u8 mem[sizeof(T)]; bool made = false, live = false; M m; T& t() { return *std::launder(reinterpret_cast<T*>(mem)); } };
    slot s[N];
    void garbage(rng& r, slot& x) { if (r.chance(3)) memset(x.mem, r.chance(2) ? 0xff : 0x01, sizeof x.mem); else r.fill(x.mem, sizeof x.mem); }
    void kill(slot& x) { if (x.made) { x.t().~T(); x.made = x.live = false; } }
    ~pool() { for (auto& x : s) kill(x); }
    static T pass(T t) { return t; }
};

// more histories where they are cheap
static constexpr u64 K = PART == 0 ? 4 : PART == 1 ? 3 : PART == 4 ? 12 : 1;

template<class A> void run(A, const char* be)
{
    using T = typename A::T; using M = typename A::M; using P = pool<A>;
    auto g = [&](const char* p) { return std::string(p) + "." + A::name() + "." + be; };
    cases(g("C22.pool").c_str(), K * tier(250, 12000), [&](rng& r, u64 i)
    {
        P p; std::string log; auto L = [&](const char* op, unsigned a, unsigned b) { log += strf(" %s%u,%u", op, a, b); current("%s", log.c_str()); count(std::string("op:") + op); };
        u64 sg = 1; unsigned n = unsigned(30 + r.below(30));
        for (unsigned k = 0; k < n; k++)
        {
            unsigned a = unsigned(r.below(P::N)), b = unsigned(r.below(P::N)); auto& x = p.s[a]; auto& y = p.s[b]; unsigned op = unsigned(r.below(16)); sg = mix(sg ^ (op << 8 | a << 4 | b));
            if (op >= 6 && !x.live) op = 0;
            switch (op)
            {
                case 0: p.kill(x); L("make", a, a); p.garbage(r, x); A::make(x.mem, x.m, r); x.made = x.live = true; break;
                case 1: if (a == b || !y.live) break; p.kill(x); L("copy", a, b); p.garbage(r, x); new (x.mem) T(std::as_const(y.t())); x.m = y.m; x.made = x.live = true; break;
                case 2: if (a == b || !y.live) break; p.kill(x); L("move", a, b); p.garbage(r, x); new (x.mem) T(std::move(y.t())); x.m = y.m; x.made = x.live = true; y.live = false; break;
                case 3: if (!x.made || !y.live) break; L(a == b ? "selfassign" : "assign", a, b); { const T& src = y.t(); x.t() = src; } if (a != b) { x.m = y.m; x.live = true; } break;
                case 4: if (a == b || !x.made || !y.live) break; L("moveassign", a, b); x.t() = std::move(y.t()); x.m = y.m; x.live = true; y.live = false; break;
                case 5:
                    switch (r.below(5))
                    {
                        case 0: if (x.live && y.live) { L("swap", a, b); std::swap(x.t(), y.t()); if (a != b) std::swap(x.m, y.m); } break;
                        case 1: if (x.live && a != b && y.made) { L("byvalue", b, a); y.t() = P::pass(x.t()); y.m = x.m; y.live = true; } break;
                        case 2: if (x.live) { L("vector", a, a); std::vector<T> v(1, x.t()); for (unsigned q = 0; q < 4; q++) v.push_back(v.back()); v.insert(v.begin(), v[2]); v.erase(v.begin() + 1); M m(x.m); A::step(v[1], m, r); x.t() = v[3]; } break;
                        case 3: if (x.live) { L("optional", a, a); std::optional<T> o(x.t()); o.reset(); o.emplace(x.t()); std::unique_ptr<T> u(new T(*o)); M m(x.m); A::finish(*o, m, r); x.t() = *u; } break;
                        case 4: if (x.made) { L("kill", a, a); p.kill(x); } break;
                    }
                    break;
                case 6: L("init", a, a); A::init(x.t(), x.m, r); break;
                default: L("step", a, a); A::step(x.t(), x.m, r); break;
            }
            if (x.made && !x.live && r.chance(6)) { L("init", a, a); A::init(x.t(), x.m, r); x.live = true; }
        }
        for (auto& x : p.s) if (x.live) A::finish(x.t(), x.m, r);
        eval(sg); if (i == 0) sample(A::name() + "." + be + ":" + log.substr(0, 160));
    });
    // an object never initialised may be copied as well, and be initialised afterwards
    cases(g("C22.unused").c_str(), 6, [&](rng& r, u64 i)
    {
        alignas(64) u8 mem[sizeof(T)]; memset(mem, i & 1 ? 0xff : 0x00, sizeof mem); T* t = new (mem) T; T c(*t); T d(std::move(*t)); T e; e = c; M m; A::init(c, m, r); A::finish(c, m, r); A::init(d, m, r); A::finish(d, m, r); A::init(e, m, r); A::step(e, m, r); A::finish(e, m, r); A::init(*t, m, r); A::finish(*t, m, r); t->~T(); eval(sigs({i}));
    });
    cases(g("C27.hist").c_str(), K * tier(500, 20000), [&](rng& r, u64 i)
    {
        alignas(64) u8 mem[sizeof(T)]; r.fill(mem, sizeof mem); M m; A::make(mem, m, r); T& t = *std::launder(reinterpret_cast<T*>(mem)); u64 sg = i; unsigned rounds = unsigned(1 + r.below(5)); std::string log = "make";
        for (unsigned k = 0; k < rounds; k++)
        {
            unsigned n = unsigned(r.below(6)); for (unsigned q = 0; q < n; q++) { log += " step"; current("%s", log.c_str()); A::step(t, m, r); }
            if (r.chance(2)) { log += " finish"; current("%s", log.c_str()); A::finish(t, m, r); }
            log += " init"; if (r.chance(8)) A::init(t, m, r);
            current("%s", log.c_str()); A::init(t, m, r); sg = mix(sg ^ n); count("reinitialisations");
        }
        unsigned n = unsigned(r.below(4)); for (unsigned q = 0; q < n; q++) A::step(t, m, r);
        A::finish(t, m, r); t.~T(); eval(sg); if (i == 0) sample(A::name() + "." + be + ": " + log);
    });
}
int main() { init(); part([](auto a, const char* be) { run(a, be); }); return finish(); }
