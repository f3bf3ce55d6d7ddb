/** erf by its Maclaurin series (small x) or a continued fraction (large x), in compensated form. */
class Erf {
  static double erf(double x) {
    if (Double.isNaN(x)) return x;
    double a = Math.abs(x);
    if (a > 6) return x > 0 ? 1 : -1;
    double v = a < 2.25 ? series(a) : 1 - erfc(a);
    return x < 0 ? -v : (x == 0 ? x : v);
  }
  // erf x = 2/sqrt(pi) exp(-x^2) sum 2^n x^(2n+1) / (2n+1)!!   (all terms positive)
  static double series(double x) {
    double t = x, s = x, c = 0;
    for (int n = 1; n < 200; n++) {
      t *= 2 * x * x / (2 * n + 1);
      double y = t - c, z = s + y; c = (z - s) - y; s = z;
      if (t < 1e-19 * s) break;
    }
    return 1.1283791670955126 * Math.exp(-x * x) * s;
  }
  static double erfc(double x) {
    double f = 0;
    for (int n = 120; n >= 1; n--) f = (n / 2.0) / (x + f);
    return Math.exp(-x * x) / (1.7724538509055160 * (x + f));
  }
}
