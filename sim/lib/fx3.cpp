// Fixture: compiled without debug information.
namespace plain {
__attribute__((noinline)) int one(int x) { return x * 17 + 1; }
__attribute__((noinline)) int two(int x) { int r = 0; for (int i = 0; i < x; ++i) r += one(i); return r; }
struct Thing { int v; __attribute__((noinline)) int get(int k) const; };
int Thing::get(int k) const { return v + two(k); }
}
static __attribute__((noinline)) int fx3_static(int v) { return v ^ plain::one(v); }
extern "C" int fx3_entry(int n) { plain::Thing t{n}; return t.get(n) + fx3_static(n); }
