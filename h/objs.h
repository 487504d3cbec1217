// objects that check their own lifetime: constructed once, destroyed once, never used outside their lifetime
#pragma once
#include <sx.h>
#include <utility>
static int g_live = 0, g_ctor_budget = -1; // g_ctor_budget: number of constructions that still succeed (-1: all do)
struct ctor_failure {};
struct Tracked {
	uint32_t v; Tracked *self;
	void born() { if (g_ctor_budget == 0) throw ctor_failure(); if (g_ctor_budget > 0) g_ctor_budget--; self = this; g_live++; }
	Tracked() : v(0) { born(); } Tracked(uint32_t x) : v(x) { born(); }
	Tracked(const Tracked &o) : v(o.v) { o.ok(); born(); } Tracked(Tracked &&o) : v(o.v) { o.ok(); born(); o.v = 0xdead; }
	Tracked &operator=(const Tracked &o) { ok(); o.ok(); v = o.v; return *this; } Tracked &operator=(Tracked &&o) { ok(); o.ok(); v = o.v; if (&o != this) o.v = 0xdead; return *this; }
	~Tracked() { ok(); self = nullptr; g_live--; }
	void ok() const { if (self != this) SX_FAIL("object used outside its lifetime"); }
	uint32_t get() const { ok(); return v; }
};
struct Other { uint64_t pad[2]; virtual ~Other() {} Other() { pad[0] = pad[1] = 0; } };
struct Poly { virtual ~Poly() {} virtual uint32_t get() const = 0; };
struct Small : Poly { Tracked t; Small(uint32_t v) : t(v) {} uint32_t get() const override { return t.get(); } };
struct Big : Other, Poly { Tracked t; uint64_t more[5]; Big(uint32_t v) : t(v) { more[0] = 0; } uint32_t get() const override { return t.get(); } };
