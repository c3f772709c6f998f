// C23: the main unit: notes of all units, calls between units, threads, a library loaded and unloaded.
#include <thread>
#include <dlfcn.h>
#include <atomic>
#include <stdlib.h>
static std::atomic<int> notes{0}, bad{0};
extern "C" __attribute__((visibility("default"))) void prog_note(int tu, const char* moment, const char* what, int good)
{
    notes++; if (good) return;
    if (bad++ < 5) { char b[300]; int n = snprintf(b, sizeof b, "BAD unit %d: %s: %s gave a wrong result\n", tu, moment, what); (void)!write(1, b, size_t(n)); }
}
// The first thing that happens and the last.
static void begin() { setvbuf(stdout, nullptr, _IONBF, 0); }
static void finish() { char b[100]; int n = snprintf(b, sizeof b, "NOTES %d BAD %d\n", int(notes), int(bad)); (void)!write(1, b, size_t(n)); }
__attribute__((section(".preinit_array"), used)) static void (*pre)() = begin;
__attribute__((section(".fini_array.00000"), used)) static void (*post)() = finish;
int main(int argc, char** argv)
{
    for (int i = 0; i < 2; i++) for (auto f : RUNS) f("main", u64(100 + i));
    { std::vector<std::thread> t; for (auto f : RUNS) for (int i = 0; i < 2; i++) t.emplace_back([=] { f("thread", u64(200 + i)); }); for (auto& x : t) x.join(); }
    gen g{SEED * 77 + 1};
    for (int round = 0; round < 3; round++)
    {
        shared_hash h; bytes m; for (auto f : HASHES) { bytes p = g.get(g.below(200)); m.insert(m.end(), p.begin(), p.end()); shared_hash c = f(h, p); h = std::move(c); } prog_note(TU, "object handed from unit to unit", "hash", same(h.digest(), ref::hash(ref::SHA384, m.data(), m.size())));
        bytes k = g.get(32), v = g.get(12), a = g.get(20), o; shared_aead x(k, v); x.aad(a); bytes q; for (auto f : AEADS) { bytes p = g.get(g.below(200)); q.insert(q.end(), p.begin(), p.end()); f(x, p, o); } auto w = ref::aead_seal(k.data(), v.data(), a.data(), a.size(), q.data(), q.size()); prog_note(TU, "object handed from unit to unit", "aead", same(o, w.ct) && same(x.digest(), w.tag));
    }
    for (int i = 1; i < argc; i++) for (int k = 0; k < 2; k++)
    {
        void* h = dlopen(argv[i], RTLD_NOW | RTLD_LOCAL); if (!h) { printf("DLOPEN %s\n", dlerror()); return 4; }
        auto f = reinterpret_cast<void (*)()>(dlsym(h, "plugin")); if (!f) return 4; f(); dlclose(h);
    }
    return 0;
}
