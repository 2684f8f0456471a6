// Sequential model of the parts of oneTBB that noarr uses: the analysis looks at what noarr asks of TBB, not at TBB itself.
#pragma once
#include <cstddef>
namespace tbb {
struct split {};
#ifndef TBB_MODEL_DEPTH
#define TBB_MODEL_DEPTH 1
#endif
// cuts the range by its splitting constructor TBB_MODEL_DEPTH times, as the Range requirement says, and runs the parts
template<int D, class R, class F> inline void parallel_for_model(R &r, const F &f) {
	if constexpr (D > 0) {
		R right(r, split());
		parallel_for_model<D - 1>(r, f);
		parallel_for_model<D - 1>(right, f);
	} else {
		const R &c = r;
		f(c);
	}
}
template<class R, class F> inline void parallel_for(const R &range, const F &f) {
	R r(range);
	parallel_for_model<TBB_MODEL_DEPTH>(r, f);
}
#ifdef TBB_MODEL_ONE_THREAD
// one thread runs all parts
template<class T> struct combinable {
	T a;
	bool used = false;
	T &local() { used = true; return a; }
	template<class F> void combine_each(F f) { if (used) f(a); }
};
#else
// every part runs in a thread of its own
template<class T> struct combinable {
	T a, b;
	unsigned used = 0;
	static_assert(TBB_MODEL_DEPTH <= 1);
	T &local() { if (used++ == 0) return a; return b; }
	template<class F> void combine_each(F f) { if (used > 0) f(a); if (used > 1) f(b); }
};
#endif
}
