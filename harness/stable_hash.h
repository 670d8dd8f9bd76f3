// Hashing of model elements by their position in the model instead of by address,
// so that two runs in one process iterate over the library's pointer-keyed hash
// containers in the same order. Include before printemps.h.
#pragma once
#include <functional>
#include <cstddef>
namespace printemps::model_component {
template <class V, class E> class Variable;
template <class V, class E> class Constraint;
template <class V, class E> struct Selection;
}  // namespace printemps::model_component
namespace std {
template <> struct hash<printemps::model_component::Variable<int, double> *> { size_t operator()(printemps::model_component::Variable<int, double> *p) const noexcept; };
template <> struct hash<printemps::model_component::Constraint<int, double> *> { size_t operator()(printemps::model_component::Constraint<int, double> *p) const noexcept; };
template <> struct hash<printemps::model_component::Selection<int, double> *> { size_t operator()(printemps::model_component::Selection<int, double> *p) const noexcept; };
}  // namespace std
#include <printemps.h>
namespace std {
inline size_t vf_mix(size_t a, size_t b) { return (a * 1000003 + b) * 48; }
inline size_t hash<printemps::model_component::Variable<int, double> *>::operator()(printemps::model_component::Variable<int, double> *p) const noexcept { return p ? vf_mix(p->proxy_index(), p->flat_index()) : 0; }
inline size_t hash<printemps::model_component::Constraint<int, double> *>::operator()(printemps::model_component::Constraint<int, double> *p) const noexcept { return p ? vf_mix(p->proxy_index(), p->flat_index()) : 0; }
inline size_t hash<printemps::model_component::Selection<int, double> *>::operator()(printemps::model_component::Selection<int, double> *p) const noexcept { return p && p->constraint_ptr ? vf_mix(p->constraint_ptr->proxy_index(), p->constraint_ptr->flat_index()) : 0; }
}  // namespace std
