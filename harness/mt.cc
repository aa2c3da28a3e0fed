// Runs the operations of a file on the bundled generator. Words: P mat1 mat2 tmat | I seed | A n key... | S status0 status1 | G which | <conversion> count
#include <cstdio>
#include <cstdint>
#include <cinttypes>
#include <cstring>
#include <vector>
#include "tinymt64.h"
static void put(double x) { uint64_t u; memcpy(&u, &x, 8); printf("%016" PRIx64 "\n", u); }
int main(int, char** v) {
    FILE* f = fopen(v[1], "r"); if (!f) return 3;
    tinymt64_t gens[2]; memset(gens, 0xa5, sizeof gens); tinymt64_t* g = &gens[0]; char op; uint64_t a, b, c;
    while (fscanf(f, " %c", &op) == 1) {
        if (op == 'P') { if (fscanf(f, "%" SCNx64 "%" SCNx64 "%" SCNx64, &a, &b, &c) != 3) return 3; g->mat1 = a; g->mat2 = b; g->tmat = c; continue; }
        if (op == 'S') { if (fscanf(f, "%" SCNx64 "%" SCNx64, &a, &b) != 2) return 3; g->status[0] = a; g->status[1] = b; continue; }
        if (fscanf(f, "%" SCNx64, &a) != 1) return 3;
        switch (op) {
        case 'I': tinymt64_init(g, a); break;
        case 'A': { uint64_t* keys = new uint64_t[a]; for (uint64_t i = 0; i < a; ++i) if (fscanf(f, "%" SCNx64, &keys[i]) != 1) return 3; tinymt64_init_by_array(g, keys, (int)a); delete[] keys; break; }
        case 'G': g = &gens[a & 1]; break;
        case 'u': while (a--) printf("%016" PRIx64 "\n", tinymt64_generate_uint64(g)); break;
        case 'h': while (a--) put(tinymt64_generate_double01(g)); break;
        case 'd': while (a--) put(tinymt64_generate_double(g)); break;
        case 't': while (a--) put(tinymt64_generate_double12(g)); break;
        case 'c': while (a--) put(tinymt64_generate_doubleOC(g)); break;
        case 'o': while (a--) put(tinymt64_generate_doubleOO(g)); break;
        default: return 3;
        }
    }
    return 0;
}
