// C20: threads with objects of their own, or sharing inputs they only read, from the first use of the library on.
#include "objects.h"
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <ucontext.h>
#include <functional>
using namespace vh;
using namespace ob;
#ifndef TSAN
#define TSAN 0
#endif

// ---- one-shot calls without allocation, with their expected output ----
struct in_t { bytes key, iv, nonce, aad, msg, salt, text16, text64, want, ct, tag; u64 n = 0; unsigned it = 1; };
constexpr size_t OUT = 2048;
struct op_t { std::string name; std::function<void(const in_t&, u8*)> run; std::function<bytes(const in_t&)> want; };
static std::vector<op_t> OPS;
static void ops()
{
    #if PART == 0
    #define T_H(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; OPS.push_back({std::string("hash.") + ref::aname(ref::N) + "." + be, [](const in_t& i, u8* o) { mp::hash::digest<H>(i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { return ref::hash(ref::N, i.msg.data(), i.msg.size()); }}); });
    FOR_ALG(T_H)
    OPS.push_back({"base16.encode", [](const in_t& i, u8* o) { mp::codec::encode<prim::b16>(i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { auto s = ref::b16e(i.msg.data(), i.msg.size()); return bytes(s.begin(), s.end()); }});
    OPS.push_back({"base64.encode", [](const in_t& i, u8* o) { mp::codec::encode<prim::b64>(i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { auto s = ref::b64e(i.msg.data(), i.msg.size()); return bytes(s.begin(), s.end()); }});
    OPS.push_back({"base16.decode", [](const in_t& i, u8* o) { milo::error e(milo::error::size); mp::codec::decode<prim::b16>(i.text16.data(), i.text16.size(), o, e); if (e) o[0] ^= 1; }, [](const in_t& i) { return i.msg; }});
    OPS.push_back({"base64.decode", [](const in_t& i, u8* o) { milo::error e(milo::error::size); mp::codec::decode<prim::b64>(i.text64.data(), i.text64.size(), o, e); if (e) o[0] ^= 1; }, [](const in_t& i) { return i.msg; }});
    OPS.push_back({"base64.decode.bad", [](const in_t& i, u8* o) { milo::error e; u8 b[5] = {'A', 'A', '!', 'A'}; mp::codec::decode<prim::b64>(b, 4, o, e); o[0] = u8(e ? i.iv[0] : ~i.iv[0]); }, [](const in_t& i) { return bytes{i.iv[0]}; }});
    #elif PART == 1
    #define T_M(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; OPS.push_back({std::string("hmac.") + ref::aname(ref::N) + "." + be, [](const in_t& i, u8* o) { mp::mac::digest<prim::hmac<H>>(i.salt.data(), i.salt.size(), i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { return ref::hmac(ref::N, i.salt.data(), i.salt.size(), i.msg.data(), i.msg.size()); }}); });
    FOR_ALG(T_M)
    OPS.push_back({"poly", [](const in_t& i, u8* o) { mp::mac::digest<prim::poly>(i.key.data(), i.key.size(), i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { return ref::poly1305(i.key.data(), i.msg.data(), i.msg.size()); }});
    #elif PART == 2
    #define T_K(N) { using K = prim::hkdf<prim::hash_of<ref::N>::any>; OPS.push_back({std::string("hkdf.") + ref::aname(ref::N), [](const in_t& i, u8* o) { mp::kdf::derive<K>(i.key.data(), i.key.size(), i.salt.data(), i.salt.size(), i.aad.data(), i.aad.size(), o, i.n); }, [](const in_t& i) { return ref::hkdf(ref::N, i.key.data(), i.key.size(), i.salt.data(), i.salt.size(), i.aad.data(), i.aad.size(), i.n); }}); }
    FOR_ALG(T_K)
    #elif PART == 3
    #define T_P(N) { using K = prim::pbkdf<prim::hash_of<ref::N>::any>; OPS.push_back({std::string("pbkdf2.") + ref::aname(ref::N), [](const in_t& i, u8* o) { mp::kdf::derive<K>(i.key.data(), i.key.size(), i.salt.data(), i.salt.size(), i.it, o, i.n); }, [](const in_t& i) { return ref::pbkdf2(ref::N, i.key.data(), i.key.size(), i.salt.data(), i.salt.size(), i.it, i.n); }}); }
    FOR_ALG(T_P)
    #else
    prim::cipher_backends([&](const char* be, auto t) { using C = typename decltype(t)::type; OPS.push_back({std::string("cipher.") + be, [](const in_t& i, u8* o) { mp::cipher::encrypt<C>(i.key.data(), 32, i.iv.data(), 16, i.msg.data(), i.msg.size(), o); }, [](const in_t& i) { bytes o(i.msg.size()); ref::chacha_xor(i.key.data(), ref::u32(i.iv[0] | i.iv[1] << 8 | i.iv[2] << 16) | ref::u32(i.iv[3]) << 24, i.iv.data() + 4, i.msg.data(), i.msg.size(), o.data()); return o; }}); });
    auto seal = [&](const char* be, auto t)
    {
        using C = typename decltype(t)::type;
        OPS.push_back({std::string("aead.encrypt.") + be, [](const in_t& i, u8* o) { mp::aead::encrypt<C>(i.key.data(), 32, i.nonce.data(), 12, i.aad.data(), i.aad.size(), i.msg.data(), i.msg.size(), o, o + i.msg.size()); }, [](const in_t& i) { bytes w(i.ct); w.insert(w.end(), i.tag.begin(), i.tag.end()); return w; }});
        OPS.push_back({std::string("aead.decrypt.") + be, [](const in_t& i, u8* o) { milo::error e(milo::error::size); mp::aead::decrypt<C>(i.key.data(), 32, i.nonce.data(), 12, i.aad.data(), i.aad.size(), i.ct.data(), i.ct.size(), i.tag.data(), 16, o, e); if (e) o[0] ^= 1; }, [](const in_t& i) { return i.msg; }});
        OPS.push_back({std::string("aead.decrypt.throws.") + be, [](const in_t& i, u8* o) { u8 w[16]; memcpy(w, i.tag.data(), 16); w[i.n % 16] ^= 4; bool th = false; try { mp::aead::decrypt<C>(i.key.data(), 32, i.nonce.data(), 12, i.aad.data(), i.aad.size(), i.ct.data(), i.ct.size(), w, 16, o); } catch (const milo::error& e) { th = e == milo::error::aead_verify; } o[0] = u8(th ? i.iv[0] : ~i.iv[0]); }, [](const in_t& i) { return bytes{i.iv[0]}; }});
    };
    prim::aead_backends(seal);
    prim::cipher_backends([&](const char* be, auto t) { if (be[1] == 'n' || be[1] == 'w') return; seal(be, prim::type_t<mp::detail::aead_chacha_20_poly_1305<typename decltype(t)::type, prim::poly>>{}); });
    #endif
}
static in_t make_in(rng& r, const op_t& op, size_t max)
{
    in_t i; i.key = r.vec(32); i.iv = r.vec(16); i.nonce = r.vec(12); i.aad = r.vec(r.below(50)); i.msg = r.vec(1 + r.below(max)); i.salt = r.vec(1 + r.below(150)); i.n = 1 + r.below(120); i.it = unsigned(1 + r.below(3));
    auto a = ref::b16e(i.msg.data(), i.msg.size()); i.text16.assign(a.begin(), a.end()); auto b = ref::b64e(i.msg.data(), i.msg.size()); i.text64.assign(b.begin(), b.end());
    auto s = ref::aead_seal(i.key.data(), i.nonce.data(), i.aad.data(), i.aad.size(), i.msg.data(), i.msg.size()); i.ct = s.ct; i.tag.assign(s.tag.begin(), s.tag.end());
    i.want = op.want(i); return i;
}

// ---- objects behind one interface ----
struct obj { virtual ~obj() {} virtual void make(rng&) = 0; virtual void init(rng&) = 0; virtual void step(rng&) = 0; virtual void finish(rng&) = 0; virtual std::unique_ptr<obj> fresh() const = 0; virtual std::unique_ptr<obj> copy() const = 0; };
template<class AD> struct obj_of : obj
{
    using T = typename AD::T; using M = typename AD::M; alignas(T) u8 mem[sizeof(T)]; bool live = false; M m;
    T& t() { return *std::launder(reinterpret_cast<T*>(mem)); } const T& t() const { return *std::launder(reinterpret_cast<const T*>(mem)); }
    ~obj_of() override { if (live) t().~T(); }
    void make(rng& r) override { if (live) t().~T(); live = false; AD::make(mem, m, r); live = true; }
    void init(rng& r) override { AD::init(t(), m, r); }
    void step(rng& r) override { AD::step(t(), m, r); }
    void finish(rng& r) override { AD::finish(t(), m, r); }
    std::unique_ptr<obj> fresh() const override { return std::make_unique<obj_of>(); }
    std::unique_ptr<obj> copy() const override { auto o = std::make_unique<obj_of>(); new (o->mem) T(t()); o->live = true; o->m = m; return o; }
};
static std::vector<std::pair<std::string, std::unique_ptr<obj>>> OBJS;

// ---- runs of several threads in a process of their own ----
struct gate   // lets all threads go at once, without ordering what they do afterwards
{
    std::atomic<int> n{0}; int want;
    explicit gate(int w) : want(w) {}
    void pass() { n.fetch_add(1, std::memory_order_relaxed); int spins = 0; while (n.load(std::memory_order_relaxed) < want) if (++spins > 2000) { sched_yield(); } }
};
template<class F> static void in_child(const std::string& what, F&& f)
{
    int p[2], q[2]; if (pipe(p) || pipe(q)) abort();
    current("%s", what.c_str()); fflush(stdout);
    pid_t c = fork(); if (c < 0) { fprintf(stderr, "cannot fork\n"); _exit(3); }
    if (c == 0)
    {
        close(p[0]); close(q[0]); dup2(p[1], 2); alarm(150); S.fails.clear(); S.nfail = 0; S.cur = nullptr; setenv("VH_OUT", "/dev/null", 1);
        u64 n = f(); (void)!write(q[1], &n, sizeof n); _exit(S.nfail ? 1 : 0);
    }
    close(p[1]); close(q[1]); std::string err; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) { if (err.size() < 20000) err.append(b, size_t(k)); } u64 n = 0; (void)!read(q[0], &n, sizeof n); close(p[0]); close(q[0]);
    int st = 0; waitpid(c, &st, 0); beat();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { count("threaded_operations", n); return; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "the threads were killed\n"); _exit(3); }
    std::string first; size_t at = err.find("WARNING: ThreadSanitizer"); if (at == std::string::npos) at = err.find("FAIL:"); if (at == std::string::npos) at = 0;
    for (size_t j = at; j < err.size() && first.size() < 600; j++) first += err[j] == '\n' ? ' ' : err[j];
    fail(what + (WIFSIGNALED(st) ? strf(": threads died of signal %d: ", WTERMSIG(st)) : std::string(": ")) + first);
}
static u64 threads(int T, const std::function<u64(int)>& f)
{
    std::vector<std::thread> v; std::vector<u64> n(size_t(T) * 16); gate g(T);
    for (int i = 0; i < T; i++) v.emplace_back([&, i] { quiet = true; g.pass(); n[size_t(i) * 16] = f(i); });
    for (auto& t : v) t.join();
    u64 s = 0; for (auto x : n) s += x; return s;
}
static u64 run_op(const op_t& op, const in_t& i, u8* out)
{
    op.run(i, out);
    if (memcmp(out, i.want.data(), i.want.size())) fail(strf("%s: got %s want %s", op.name.c_str(), hex(out, i.want.size()).c_str(), hex(i.want).c_str()));
    return 1;
}
static u64 life(const obj& proto, rng& r, int steps) { auto o = proto.fresh(); o->make(r); for (int i = 0; i < steps; i++) { if (r.chance(7)) o->init(r); o->step(r); } o->finish(r); return u64(steps) + 2; }

// ---- preemption at chosen instructions: one thread is stepped, the other one runs in between ----
#if !TSAN
namespace step
{
    static std::atomic<int> turn{0}; static u64 steps, every, phase, handed, late; static bool on;
    static void trap(int, siginfo_t*, void*)
    {
        int e = errno; steps++;
        if (on && (steps + phase) % every == 0 && turn.load() == 0)
        {
            turn.store(1); handed++; u64 w = 0;
            while (turn.load() == 1) { if (++w > 4000) sched_yield(); if (w > 60000) { late++; break; } }   // it may be waiting for us
        }
        errno = e;
    }
    static inline void begin() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
    static inline void end() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
    static u64 run(const op_t& a, const in_t& ia, const op_t& b, const in_t& ib, u64 ev, u64 ph, u64& nsteps, u64& nhanded, u64& nlate)
    {
        struct sigaction sa{}, old{}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, &old); turn = 0; steps = handed = late = 0; every = ev; phase = ph; on = true; u64 nb = 0;
        std::thread t([&] { quiet = true; static thread_local u8 out[OUT * 2]; for (;;) { int w = 0; int k; while ((k = turn.load()) == 0) if (++w > 4000) sched_yield(); if (k == 2) return; nb += run_op(b, ib, out); int one = 1; turn.compare_exchange_strong(one, 0); } });
        static u8 out[OUT * 2]; begin(); a.run(ia, out); end(); on = false;
        while (turn.load() == 1) sched_yield();
        turn = 2; t.join(); sigaction(SIGTRAP, &old, nullptr);
        if (memcmp(out, ia.want.data(), ia.want.size())) fail(strf("%s, with %s in another thread after every %llu instructions (offset %llu): got %s want %s", a.name.c_str(), b.name.c_str(), (unsigned long long)ev, (unsigned long long)ph, hex(out, ia.want.size()).c_str(), hex(ia.want).c_str()));
        nsteps = steps; nhanded = handed; nlate = late; return 1 + nb;
    }
}
#endif

int main()
{
    init(); ops();
    part([&](auto ad, const char* be) { using AD = decltype(ad); OBJS.emplace_back(AD::name() + "." + be, std::make_unique<obj_of<AD>>()); });
    const u64 MUL = TSAN ? 1 : 4;
    // The first use in the process, by all threads at once.
    cases("C20.first.call", tier(60, 1500) * MUL, [&](rng& r, u64 c)
    {
        int T = int(2 + r.below(7)); bool same = r.chance(2); size_t k = (c + r.below(2)) % OPS.size(); std::vector<size_t> pick; std::vector<in_t> in; for (int i = 0; i < T; i++) { pick.push_back(same ? k : r.below(OPS.size())); in.push_back(make_in(r, OPS[pick[size_t(i)]], r.chance(3) ? 700 : 100)); }
        std::string w = strf("%d threads start with %s", T, same ? OPS[k].name.c_str() : "different calls"); eval(sigs({c, u64(T), same ? k : 99, 1})); if (c < 3) sample(w); count("processes_first_call");
        in_child(w, [&] { return threads(T, [&](int i) { u8 out[OUT * 2]; u64 n = 0; for (int j = 0; j < 3; j++) n += run_op(OPS[pick[size_t(i)]], in[size_t(i)], out); return n; }); });
    });
    cases("C20.first.object", tier(60, 1500) * MUL, [&](rng& r, u64 c)
    {
        int T = int(2 + r.below(7)); size_t k = r.below(OBJS.size()); bool same = r.chance(2); u64 seed = r.next(); std::string w = strf("%d threads start with objects of %s", T, same ? OBJS[k].first.c_str() : "different kinds"); eval(sigs({c, u64(T), same ? k : 99, 2})); if (c < 3) sample(w); count("processes_first_object");
        in_child(w, [&] { return threads(T, [&](int i) { rng q(seed + u64(i)); return life(*OBJS[same ? k : q.below(OBJS.size())].second, q, int(2 + q.below(5))); }); });
    });
    // Long runs: everybody does everything, on objects of their own and inputs of all.
    cases("C20.mix", tier(6, 60) * MUL, [&](rng& r, u64 c)
    {
        int T = int(4 + r.below(5)); u64 seed = r.next(); std::vector<std::pair<size_t, in_t>> pool; for (int i = 0; i < 40; i++) { size_t k = r.below(OPS.size()); pool.emplace_back(k, make_in(r, OPS[k], 900)); } u64 rounds = tier(60, 300) * MUL;
        std::string w = strf("%d threads, mixed calls and objects, shared inputs", T); eval(sigs({c, u64(T), 3})); if (!c) sample(w);
        in_child(w, [&] { return threads(T, [&](int i) { rng q(seed + u64(i)); u8 out[OUT * 2]; u64 n = 0; for (u64 j = 0; j < rounds; j++) { if (q.chance(3)) n += life(*OBJS[q.below(OBJS.size())].second, q, int(1 + q.below(5))); else { auto& [k, in] = pool[q.below(pool.size())]; for (int z = 0; z < 10; z++) n += run_op(OPS[k], in, out); } } return n; }); });
    });
    // All threads in the same call, with different inputs: hidden shared state has to show.
    cases("C20.same", OPS.size(), [&](rng& r, u64 c)
    {
        int T = 8; std::vector<in_t> in; for (int i = 0; i < T; i++) in.push_back(make_in(r, OPS[c], i % 2 ? 900 : 200)); u64 rounds = TSAN ? tier(20, 200) : tier(1500, 30000); std::string w = strf("%d threads in %s", T, OPS[c].name.c_str()); eval(sigs({c, 4}));
        in_child(w, [&] { return threads(T, [&](int i) { u8 out[OUT * 2]; u64 n = 0; for (u64 j = 0; j < rounds; j++) n += run_op(OPS[c], in[size_t(i)], out); return n; }); });
    });
    // One object copied by all threads at once, while nobody changes it.
    cases("C20.copy", OBJS.size() * tier(1, 20), [&](rng& r, u64 c)
    {
        auto& [name, proto] = OBJS[c % OBJS.size()]; int T = int(2 + r.below(7)); u64 seed = r.next(); std::string w = strf("%d threads copy one object of %s", T, name.c_str()); eval(sigs({c, 5})); if (!c) sample(w);
        auto* pr = proto.get(); u64 s2 = r.next();
        in_child(w, [&] { rng q0(s2); auto o = pr->fresh(); { quiet = true; o->make(q0); u64 k = q0.below(4); while (k--) o->step(q0); } const obj& shared = *o; return threads(T, [&](int i) { rng q(seed + u64(i)); u64 n = 0; for (int j = 0; j < 10; j++) { auto x = shared.copy(); x->step(q); x->finish(q); n += 3; } return n; }); });
    });
    // Objects that one thread makes, others use, and another one destroys, one after the other.
    cases("C20.hand_over", tier(6, 60) * MUL, [&](rng& r, u64 c)
    {
        int T = int(2 + r.below(5)); u64 seed = r.next(); u64 rounds = tier(8, 20); std::string w = strf("%d threads pass their objects on", T); eval(sigs({c, 6})); if (!c) sample(w);
        in_child(w, [&]
        {
            std::vector<std::unique_ptr<obj>> slot(static_cast<size_t>(T)); rng q0(seed); for (auto& s : slot) { s = OBJS[q0.below(OBJS.size())].second->fresh(); quiet = true; s->make(q0); }
            u64 n = 0; for (u64 j = 0; j < rounds; j++) n += threads(T, [&](int i) { auto& s = slot[(size_t(i) + j) % size_t(T)]; rng q(seed ^ (j * 100 + u64(i))); if (q.chance(6)) { s->finish(q); s = OBJS[q.below(OBJS.size())].second->fresh(); s->make(q); } s->step(q); return u64(1); });
            for (auto& s : slot) s->finish(q0);
            return n;
        });
    });
    #if !TSAN
    // One thread stopped after every so many instructions, with a whole call of another thread in between.
    cases("C20.step", OPS.size() * tier(6, 60), [&](rng& r, u64 c)
    {
        size_t a = c % OPS.size(), b = (c / OPS.size()) % 3 ? r.below(OPS.size()) : a; in_t ia = make_in(r, OPS[a], r.chance(3) ? 600 : 150), ib = make_in(r, OPS[b], 300); static const u64 E[] = {1, 1, 2, 3, 5, 17, 61}; u64 ev = E[r.below(7)], ph = r.below(ev); bool first = r.chance(3);
        std::string w = strf("%s stopped after every %llu instructions for %s%s", OPS[a].name.c_str(), (unsigned long long)ev, OPS[b].name.c_str(), first ? ", the first use" : ""); if (c < 2) sample(w);
        u64* sh = static_cast<u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        in_child(w, [&] { static u8 o1[OUT * 2], o2[OUT * 2]; if (!first) { run_op(OPS[a], ia, o1); run_op(OPS[b], ib, o2); } return step::run(OPS[a], ia, OPS[b], ib, ev, ph, sh[0], sh[1], sh[2]); });
        count("instructions_stepped", sh[0]); count("preemptions_with_a_whole_call_between", sh[1]); count("preemptions_waited_for", sh[2]); eval(sigs({a, b, ev, ph, sh[0], sh[1]}), sh[1] > 0); munmap(sh, 4096);
    });
    #endif
    return finish();
}
