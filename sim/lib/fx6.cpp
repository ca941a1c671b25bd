// Fixture: functions of which nothing is left but what was inlined elsewhere, in nested blocks.
namespace gone {
static int volatile sink;
static inline __attribute__((always_inline)) void deep(int x) { sink = x * 7; { int y = x + sink; sink = y ^ 3; } }
struct Obj
{
  int v;
  __attribute__((always_inline)) int step(int k) { for (int i = 0; i < k; ++i) { int t = v + i; if (t & 1) { deep(t); v += sink; } } return v; }
};
}
extern "C" int fx6_entry(int n) { gone::Obj o{n}; int r = o.step(n); { gone::Obj p{r}; r += p.step(2); } return r; }
