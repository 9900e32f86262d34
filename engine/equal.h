// Equality: two values are equal exactly when every component is, zeros of either sign being equal.
#pragma once
#include "gen.h"
#include <vector>

namespace gen {

template <class R, class T> void equality(Case& c, T& a, T& b, std::vector<R*> pa, std::vector<R*> pb)
{
	size_t n = pa.size();
	bool same = true;
	int kind = int(c.draw(4));	// 0: equal as stored, 1: zeros of both signs, 2: one differs, 3: several may differ
	size_t which = size_t(c.draw(n));
	for (size_t i = 0; i < n; i++)
	{
		R v = real<R>(c);
		if (kind == 1 && (i == which || c.flip())) v = R(0);
		R w = v;
		if (v == R(0) && (kind == 1 || c.flip())) { v = c.flip() ? -v : v; w = -v; }
		if ((kind == 2 && i == which) || (kind == 3 && c.draw(4) == 3))
		{
			switch (c.draw(4))
			{
			case 0: w = v + R(1); break;
			case 1: w = std::nextafter(v, R(1e30)); break;
			case 2: w = std::nextafter(v, R(-1e30)); break;
			default: w = (v == R(0)) ? std::numeric_limits<R>::denorm_min() : -v;
			}
		}
		*pa[i] = v; *pb[i] = w;
		if (v != w) same = false;
	}
	for (size_t i = 0; i < n; i++) { c.show("a", *pa[i]); c.show("b", *pb[i]); }
	c.nontrivial(kind != 0);
	c.label(same ? "equal" : "different");
	REQUIREM((a == b) == same, same); REQUIREM((b == a) == same, same);
	REQUIREM((a != b) == !same, same); REQUIREM((b != a) == !same, same);
	REQUIRE(a == a); REQUIRE(!(a != a));
}

}
