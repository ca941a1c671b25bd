// Fixture: many small functions, one with a cold part (two address ranges).
namespace calc {
extern "C" void __attribute__((cold, noinline)) fx2_fail(int c)
{
  volatile int v = c;
  v = v + 1;
}
__attribute__((noinline)) int risky(int a, int b)
{
  int r = a + b;
  if (__builtin_expect(a == 77, 0))
  {
    fx2_fail(a);
    r = r * 7;
    fx2_fail(b);
  }
  if (__builtin_expect(b == 78, 0))
  {
    fx2_fail(b + 1);
    r -= 9;
  }
  return r;
}
class Acc
{
  int s = 0;
 public:
  Acc& operator+=(int x);
  operator int() const;
};
Acc& Acc::operator+=(int x)
{
  s += x;
  if (s < 0)
    s = -s;
  return *this;
}
Acc::operator int() const { return s; }
static __attribute__((noinline)) int hidden(int v)
{
  int t = v;
  t <<= 2;
  return t - 3;
}
}
extern "C" int fx2_entry(int n)
{
  calc::Acc a;
  for (int i = 0; i < n; ++i)
    a += calc::risky(i, n);
  return a + calc::hidden(n);
}
extern "C" int fx2_other(int n) { return fx2_entry(n) + 1; }
