#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
#include <tuple>
#include <memory>
#include <new>
#include <type_traits>
#include <initializer_list>
#include <functional>
// Opaque events.  None of these functions has a body: the analysis only needs their call sites.
extern "C" {
  // kind: 'K' key, 'T' mapped
  void vf_K_def (void* d); void vf_K_copy(void* d, const void* s); void vf_K_move(void* d, void* s);
  void vf_K_dtor(void* d); void vf_K_casn(void* d, const void* s); void vf_K_masn(void* d, void* s);
  void vf_K_conv(void* d, const void* s);
  void vf_T_def (void* d); void vf_T_copy(void* d, const void* s); void vf_T_move(void* d, void* s);
  void vf_T_dtor(void* d); void vf_T_casn(void* d, const void* s); void vf_T_masn(void* d, void* s);
  void vf_T_conv(void* d, const void* s); void vf_T_conv2(void* d, const void* s, const void* s2);
  std::size_t vf_hash(const void* k); bool vf_eq(const void* a, const void* b);
  void* vf_alloc(std::size_t n, std::size_t sz); void vf_dealloc(void* p, std::size_t n, std::size_t sz);
  void vf_use(const void*);  // visited element
  void vf_mark(std::size_t);
}
#ifndef VF_KSZ
#define VF_KSZ 8
#endif
#ifndef VF_TSZ
#define VF_TSZ 8
#endif
#ifdef VF_THROW
#define VF_NX
#else
#define VF_NX noexcept
#endif
struct KC { std::size_t x; };   // convertible to K
struct TC { std::size_t x; };   // convertible to T
struct TC2 { std::size_t x; };
#ifdef VF_TRIVIAL
struct K { std::size_t a; K() = default; K(const KC& o) : a(o.x) {} };
struct T { std::size_t a; T() = default; T(const TC& o) : a(o.x) {} T(const TC& o, const TC2& p) : a(o.x + p.x) {} };
#else
struct K { alignas(8) unsigned char b[VF_KSZ];
  K() VF_NX { vf_K_def(this); } K(const K& o) VF_NX { vf_K_copy(this,&o);} K(K&& o) noexcept { vf_K_move(this,&o);} 
  K(const KC& o) VF_NX { vf_K_conv(this,&o);}
  ~K() { vf_K_dtor(this);} K& operator=(const K& o) VF_NX { vf_K_casn(this,&o); return *this;} K& operator=(K&& o) noexcept { vf_K_masn(this,&o); return *this;} };
struct T { alignas(8) unsigned char b[VF_TSZ];
  T() VF_NX { vf_T_def(this); } T(const T& o) VF_NX { vf_T_copy(this,&o);} T(T&& o) noexcept { vf_T_move(this,&o);} 
  T(const TC& o) VF_NX { vf_T_conv(this,&o);} T(const TC& o, const TC2& p) VF_NX { vf_T_conv2(this,&o,&p);} 
  ~T() { vf_T_dtor(this);} T& operator=(const T& o) VF_NX { vf_T_casn(this,&o); return *this;} T& operator=(T&& o) noexcept { vf_T_masn(this,&o); return *this;} };
#endif
#ifdef VF_STATEFUL
struct Hs { std::size_t st; Hs(std::size_t s=700101):st(s){} std::size_t operator()(const K& k) const noexcept { return vf_hash(&k); } };
struct Eq { std::size_t st; Eq(std::size_t s=700102):st(s){} bool operator()(const K& a, const K& b) const noexcept { return vf_eq(&a,&b); } };
#else
struct Hs { 
  std::size_t operator()(const K& k) const noexcept { return vf_hash(&k); } };
struct Eq { bool operator()(const K& a, const K& b) const noexcept { return vf_eq(&a,&b); } };
#endif
#ifndef VF_PROP
#define VF_PROP std::false_type
#endif
#ifndef VF_POCS
#define VF_POCS VF_PROP
#endif
template <class U> struct Al {
  using value_type = U;
#ifdef VF_STATEFUL
  std::size_t st; Al(std::size_t s=700103) noexcept : st(s) {}
  template <class V> Al(const Al<V>& o) noexcept : st(o.st) {}
  using is_always_equal = std::false_type;
  using propagate_on_container_copy_assignment = VF_PROP;
  using propagate_on_container_move_assignment = VF_PROP;
  using propagate_on_container_swap = VF_POCS;
#else
  Al() noexcept {} template <class V> Al(const Al<V>&) noexcept {}
  using is_always_equal = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
#endif
  U* allocate(std::size_t n) { return static_cast<U*>(vf_alloc(n, sizeof(U))); }
  void deallocate(U* p, std::size_t n) noexcept { vf_dealloc(p, n, sizeof(U)); }
#ifdef VF_STATEFUL
  template <class V> bool operator==(const Al<V>& o) const noexcept { return st == o.st; }
  template <class V> bool operator!=(const Al<V>& o) const noexcept { return st != o.st; }
#else
  template <class V> bool operator==(const Al<V>&) const noexcept { return true; }
  template <class V> bool operator!=(const Al<V>&) const noexcept { return false; }
#endif
};
