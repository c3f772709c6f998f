// The processor and system the assembly sources see: their cpuid and xgetbv trap into on_ill below, which answers for the model M.
// Every assembly routine is entered through a counting thunk; its needs come from its disassembly (routines.inc).
#pragma once
#include "prim.h"
#include <sys/wait.h>
#include <ucontext.h>
using namespace vh;

enum : u64 { SSE3 = 1, SSSE3 = 2, SSE41 = 4, SSE42 = 8, AVX = 16, AVX2 = 32, SHA = 64, BMI1 = 128, BMI2 = 256, AES = 512, PCLMUL = 1024, FMA = 2048, POPCNT = 4096, MOVBE = 8192, AVX512 = 16384, ADX = 32768 };
struct routine { const char* name; u64 req; };
extern "C" volatile u64 vh_counters[];
#include "routines.inc" // static const routine routines[]; static const size_t nroutines

struct model { const char* name = ""; u64 f = 0; bool osxsave = true; unsigned xcr0 = 7; unsigned max_leaf = 7; u64 noise = 0; bool real = false; };
static model M; struct shared { u64 cpuid, xgetbv; u64 badx; char msg[400]; u64 cnt[64]; u64 sig; }; static shared* SH;

static void regs_of(uint32_t leaf, uint32_t sub, uint32_t* r)
{
    u64 n = M.noise ? mix(M.noise ^ (u64(leaf) << 32 | sub)) : 0, n2 = M.noise ? mix(n) : 0; r[0] = uint32_t(n); r[1] = uint32_t(n >> 32); r[2] = uint32_t(n2); r[3] = uint32_t(n2 >> 32);
    auto set = [](uint32_t& w, int b, bool v) { w = v ? w | 1u << b : w & ~(1u << b); };
    if (leaf == 0) { r[0] = M.max_leaf; r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; return; }
    if (leaf >= 0x80000000u) { if (leaf == 0x80000000u) r[0] = 0x80000000u; return; }
    // leaves past the last one return data that means nothing
    if (leaf > M.max_leaf) { r[0] = r[1] = r[2] = r[3] = 0xffffffffu; return; }
    if (leaf == 1)
    {
        set(r[3], 0, true); set(r[3], 4, true); set(r[3], 8, true); set(r[3], 15, true); set(r[3], 23, true); set(r[3], 24, true); set(r[3], 25, true); set(r[3], 26, true);
        set(r[2], 0, M.f & SSE3); set(r[2], 1, M.f & PCLMUL); set(r[2], 9, M.f & SSSE3); set(r[2], 12, M.f & FMA); set(r[2], 19, M.f & SSE41); set(r[2], 20, M.f & SSE42); set(r[2], 22, M.f & MOVBE); set(r[2], 23, M.f & POPCNT);
        set(r[2], 25, M.f & AES); set(r[2], 26, M.osxsave || (n & 1)); set(r[2], 27, M.osxsave); set(r[2], 28, M.f & AVX);
    }
    else if (leaf == 7)
    {
        if (sub) { r[0] = r[1] = r[2] = r[3] = 0xffffffffu; return; } // other subleaves mean something else
        r[0] = 0; set(r[1], 3, M.f & BMI1); set(r[1], 5, M.f & AVX2); set(r[1], 8, M.f & BMI2); set(r[1], 16, M.f & AVX512); set(r[1], 17, M.f & AVX512); set(r[1], 19, M.f & ADX); set(r[1], 29, M.f & SHA); set(r[1], 30, M.f & AVX512); set(r[1], 31, M.f & AVX512);
    }
}
static u64 usable()
{
    u64 f = M.f; if (M.max_leaf < 7) f &= ~(AVX2 | SHA | BMI1 | BMI2 | AVX512 | ADX);
    if (!M.osxsave || (M.xcr0 & 6) != 6) f &= ~(AVX | AVX2 | FMA | AVX512); return f;
}
static void on_ill(int, siginfo_t*, void* c)
{
    auto& g = static_cast<ucontext_t*>(c)->uc_mcontext.gregs; auto ip = reinterpret_cast<const u8*>(g[REG_RIP]);
    if (ip[0] == 0x0f && ip[1] == 0x0b && ip[2] == 'V')
    {
        if (ip[3] == 1) { uint32_t r[4]; regs_of(uint32_t(g[REG_RAX]), uint32_t(g[REG_RCX]), r); SH->cpuid += 1; g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; g[REG_RIP] += 4; return; }
        if (ip[3] == 2)
        {
            SH->xgetbv += 1; if (!M.osxsave) { snprintf(SH->msg, sizeof SH->msg, "xgetbv executed on a system that does not enable it"); _exit(91); }
            if (uint32_t(g[REG_RCX]) != 0) { snprintf(SH->msg, sizeof SH->msg, "xgetbv of register %u", uint32_t(g[REG_RCX])); _exit(91); }
            g[REG_RAX] = M.xcr0; g[REG_RDX] = 0; g[REG_RIP] += 4; return;
        }
    }
    signal(SIGILL, SIG_DFL);
}
