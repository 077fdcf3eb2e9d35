// Force-included when the repository's generator is built for the protocol
// harnesses: the nonce (a documented build-time parameter of the generator)
// becomes a function, so that every simulated party has its own randomness.
#ifndef VP_NONCE_H
#define VP_NONCE_H
extern "C" long long vp_prg_nonce();
#endif
