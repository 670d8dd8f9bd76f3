// Receiver side of the observation points compiled into the library when
// PRINTEMPS_VERIF_HOOK is defined.  The pointers are type-erased; a driver
// installs the callbacks it wants.
#pragma once
namespace printemps_verif {
inline void (*g_model_update)(const void *)                            = nullptr;
inline void (*g_model_move)(const void *, const void *)                = nullptr;
inline void (*g_incumbent)(const void *, const void *, const void *)   = nullptr;
inline void (*g_dual_bound)(const void *, double)                      = nullptr;
template <class M> inline void on_model_update(const M *m) { if (g_model_update) g_model_update(m); }
template <class M, class V> inline void on_model_move(const M *m, const V *v) { if (g_model_move) g_model_move(m, v); }
template <class H, class S> inline void on_incumbent(std::nullptr_t, const H *h, const S *s) { if (g_incumbent) g_incumbent(nullptr, h, s); }
template <class M, class H, class S> inline void on_incumbent(const M *m, const H *h, const S *s) { if (g_incumbent) g_incumbent(m, h, s); }
template <class H> inline void on_dual_bound(const H *h, double d) { if (g_dual_bound) g_dual_bound(h, d); }
}  // namespace printemps_verif
