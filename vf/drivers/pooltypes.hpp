#pragma once
#include "vf.hpp"
#include <algorithm>
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
using namespace ReiserRT::Core;
namespace vfu { void ctor(void *); void ctor2(void *); void dtor(void *) noexcept; void dtor2(void *) noexcept; void qctor(void *) noexcept; int val(); void use(const void *); void arg(int); void argl(const void *) noexcept; void argr(const void *) noexcept; void argc(const void *) noexcept; void argbad() noexcept; }
struct VfBase { VfBase() { vfu::ctor(this); } virtual ~VfBase() { vfu::dtor(this); } int x; };
struct VfDerived : VfBase { VfDerived(int a) : y{a} { vfu::ctor2(this); } ~VfDerived() override { vfu::dtor2(this); } int y; long z[5]; };
struct VfOther { virtual ~VfOther() {} long q; };
struct VfMulti : VfOther, VfBase { VfMulti() { vfu::ctor2(this); } ~VfMulti() override { vfu::dtor2(this); } long w; };
struct VfPlain { VfPlain() { vfu::ctor(this); } ~VfPlain() { vfu::dtor(this); } int a; };
struct VfQuiet { VfQuiet() noexcept { vfu::qctor(this); } ~VfQuiet() { vfu::dtor(this); } long a, b, c; };
// types whose traits differ from constructor to constructor, or from construction to destruction
struct VfMixed { VfMixed() noexcept { vfu::qctor(this); } explicit VfMixed(int) { vfu::ctor(this); } VfMixed(const VfMixed &) noexcept { vfu::qctor(this); } ~VfMixed() { vfu::dtor(this); } long v[2]; };
struct VfTriv { VfTriv() { vfu::ctor(this); } explicit VfTriv(int) noexcept { vfu::qctor(this); } short a[3]; };
struct VfLazy { ~VfLazy() { vfu::dtor(this); } int a; };
// nothing throws but the default constructor, or the one from an int
template <int B> struct VfBut {
    VfBut() noexcept(B != 0) { if constexpr (B == 0) vfu::ctor(this); else vfu::qctor(this); }
    explicit VfBut(int) noexcept(B != 1) { if constexpr (B == 1) vfu::ctor(this); else vfu::qctor(this); }
    VfBut(VfBut &&) noexcept { vfu::qctor(this); }
    VfBut(const VfBut &) noexcept { vfu::qctor(this); }
    VfBut &operator=(VfBut &&) noexcept { return *this; }
    VfBut &operator=(const VfBut &) noexcept { return *this; }
    ~VfBut() { vfu::dtor(this); }
    int a, b, c;
};
struct VfPod { int a; long b; };
struct VfFin final : VfBase { VfFin(int) { vfu::ctor2(this); } ~VfFin() override { vfu::dtor2(this); } };
struct VfArgs { VfArgs(int &a, int &&b, const int &c) { vfu::argl(&a); vfu::argr(&b); vfu::argc(&c); } VfArgs(int &, int &, const int &) { vfu::argbad(); } VfArgs(const int &, const int &, const int &) { vfu::argbad(); } ~VfArgs() { vfu::dtor(this); } int x; };
struct VfOnly { VfOnly() = default; VfOnly(VfOnly &&) = default; VfOnly(const VfOnly &) = delete; };
struct VfTaker { VfTaker(VfOnly o, VfOnly &&) { (void)o; } int x; };
struct VfPool : MemoryPoolBase { explicit VfPool(size_t n, size_t s) : MemoryPoolBase{n, s} {} ~VfPool() = default; };
