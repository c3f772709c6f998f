// C21: a program linked with the library: its stack and segments.
#include "prim.h"
#include <elf.h>
#include <link.h>
using namespace vh;
int main()
{
    init();
    cases("C21.link", 1, [&](rng&, u64)
    {
        FILE* f = fopen("/proc/self/maps", "r"); char l[512]; bool found = false;
        while (f && fgets(l, sizeof l, f)) { char perm[8] = ""; sscanf(l, "%*s %7s", perm); if (strstr(l, "[stack]")) { found = true; if (perm[2] == 'x') fail("the stack is executable"); } if (perm[1] == 'w' && perm[2] == 'x') fail(std::string("memory both writable and executable: ") + l); }
        if (f) fclose(f); if (!found) { fprintf(stderr, "no stack in maps\n"); exit(2); }
        bool note = false; auto cb = [](dl_phdr_info* i, size_t, void* p) { if (i->dlpi_name[0]) return 0; for (int k = 0; k < i->dlpi_phnum; k++) { if (i->dlpi_phdr[k].p_type == PT_GNU_STACK) { *static_cast<bool*>(p) = true; if (i->dlpi_phdr[k].p_flags & PF_X) fail("the program asks for an executable stack"); } if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & (PF_X | PF_W)) == (PF_X | PF_W)) fail("a segment is writable and executable"); } return 0; };
        dl_iterate_phdr(cb, &note); if (!note) fail("no stack note in the program");
        u8 m[300] = {1}, d[64]; auto n = mp::hash::digest<mp::hash::sha_2_256<>>(m, 300, d); auto w = ref::hash(ref::SHA256, m, 300); check_eq(d, n, w.data(), 32, "digest");
        bytes k(32), iv(16), o(300), e(300); ref::chacha_xor(k.data(), 0, iv.data() + 4, m, 300, e.data()); mp::cipher::encrypt<mp::cipher::chacha_20<>>(k.data(), 32, iv.data(), 16, m, 300, o.data()); check_eq(o, e, "text"); mp::hash::digest<mp::hash::sha_1_160<>>(m, 300, d); eval(1);
    });
    return finish();
}
