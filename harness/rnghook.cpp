// Linked into the Python extension: lets a Python driver observe and replace the random draws.
#include <cstdint>
extern "C" {
__attribute__((visibility("default"))) uint64_t vf_rng_pos = 0;
__attribute__((visibility("default"))) int vf_rng_ndev = 0;
__attribute__((visibility("default"))) uint64_t vf_rng_devpos[4];
__attribute__((visibility("default"))) uint64_t vf_rng_devval[4];
__attribute__((visibility("default"))) uint64_t vf_rng_sigpos = ~0ULL;   // at this draw ...
__attribute__((visibility("default"))) void (*vf_rng_sigfn)() = nullptr; // ... call this
__attribute__((visibility("default"))) uint64_t minorminer_verification_draw(uint64_t v) {
    uint64_t p = vf_rng_pos++;
    if (p == vf_rng_sigpos && vf_rng_sigfn) vf_rng_sigfn();
    for (int i = 0; i < vf_rng_ndev; i++)
        if (vf_rng_devpos[i] == p) return vf_rng_devval[i];
    return v;
}
}
