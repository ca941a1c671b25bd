// Fixture: functions with inlined calls, nested inlines, templates, a static function.
namespace shapes {
static inline __attribute__((always_inline)) int leaf(int x)
{
  int r = x * 3;
  if (r > 100)
    r -= 41;
  return r ^ 5;
}
static inline __attribute__((always_inline)) int middle(int x)
{
  int r = leaf(x);
  for (int i = 0; i < x; ++i)
    r += leaf(i);
  return r;
}
struct Box
{
  int a, b;
  int area() const;
  __attribute__((noinline)) static int count(int n)
  {
    int s = 0;
    while (n-- > 0)
      s += n * n;
    return s;
  }
};
int Box::area() const
{
  return middle(a) * leaf(b);
}
template <class T> __attribute__((noinline)) T twice(T v)
{
  T w = v;
  w += leaf((int)v);
  return w + v;
}
__attribute__((noinline)) int local_only(int x)
{
  return x + middle(x + 1);
}
}
extern "C" int fx1_entry(int n)
{
  shapes::Box b{n, n + 1};
  int r = b.area();
  r += shapes::Box::count(n);
  r += shapes::twice(n);
  r += (int)shapes::twice((long)n);
  r += shapes::local_only(r);
  return r;
}
#ifdef __clang__
// Instructions that the compiler attributes to no line in particular have line 0.
extern "C" int fx1_gap(int n)
{
  int r = n + 1;
  __asm__ volatile("nop\n\t.loc 0 0\n\tnop\n\tnop\n\tnop\n\tnop");
  r *= 3;
  return r;
}
#endif
