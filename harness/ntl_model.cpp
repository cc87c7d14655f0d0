// The per-thread moduli of the NTL model (engine builds only).
#ifdef SX_ENGINE
extern "C" {
thread_local unsigned _BitInt(256) sx_zzp_mod = 0;
thread_local long sx_zp_mod = 0;
}
#endif
