// Decomposes every simplicial cone of a slice of a bounded family with LattE's library and compares the sum of the
// generating functions of the pieces with the generating function of the cone itself, which is computed here.
//   kernel D LO HI SLICE NSLICES STEP ALL            all D-subsets of primitive vectors with entries LO..HI (every STEP-th)
//   kernel one MODE MAXDET VERTEX RAYS...            one cone ("1/2,0,3" "1,0,0" ...)
// Output: "cones N runs M pieces K", or "BAD ..." lines.
#include <iostream>
#include <sstream>
#include <fstream>
#include <vector>
#include <string>
#include <csignal>
#include <unistd.h>
#include <cstring>
#include <gmpxx.h>
#include "cone.h"
#include "barvinok/dec.h"
#include "barvinok/barvinok.h"
#include "genFunction/piped.h"
#include "Irrational.h"
#include "convert.h"
#include "dual.h"
#include "rational.h"

using namespace std;
typedef vector<long> V;
typedef vector<mpq_class> Q;

static string current;
static const long X[6] = {2, 3, 5, 7, 11, 13};

static void died(int sig)
{
  string s = "BAD " + current + ": signal\n";
  if (write(1, s.data(), s.size())) {}
  _exit(3);
}

static mpz_class z(const ZZ &a)
{
  ostringstream s;
  s << a;
  return mpz_class(s.str());
}

static mpq_class power(const vector<mpz_class> &e)
{
  mpz_class n = 1, m = 1, t;
  for (size_t i = 0; i < e.size(); i++) {
    mpz_class a = abs(e[i]);
    mpz_ui_pow_ui(t.get_mpz_t(), X[i], a.get_ui());
    if (e[i] >= 0) n *= t; else m *= t;
  }
  return mpq_class(n, m);
}

static long det(vector<V> M)
{
  int d = M.size();
  if (d == 1) return M[0][0];
  long s = 0;
  for (int j = 0; j < d; j++) {
    if (!M[0][j]) continue;
    vector<V> N;
    for (int i = 1; i < d; i++) {
      V r;
      for (int k = 0; k < d; k++)
        if (k != j) r.push_back(M[i][k]);
      N.push_back(r);
    }
    s += (j % 2 ? -1 : 1) * M[0][j] * det(N);
  }
  return s;
}

static long lfloor(const mpq_class &q)
{
  mpz_class f;
  mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return f.get_si();
}

// The generating function at X, from the definition.
static mpq_class truth(const vector<V> &R, const Q &v, long &npts)
{
  int d = R.size();
  long D = det(R);
  // cofactors: lambda_i = det(R with row i replaced by p - v) / D
  vector<V> C(d, V(d));
  for (int i = 0; i < d; i++)
    for (int j = 0; j < d; j++) {
      vector<V> M = R;
      for (int k = 0; k < d; k++) M[i][k] = k == j;
      C[i][j] = det(M);
    }
  long L = 1;
  for (int i = 0; i < d; i++) {
    long q = v[i].get_den().get_si(), g = L, h = q;
    while (h) { long t = g % h; g = h; h = t; }
    L = L / g * q;
  }
  V w(d), lo(d), hi(d), p(d);
  for (int i = 0; i < d; i++) {
    mpq_class t = v[i] * L;
    w[i] = t.get_num().get_si();
    long a = 0, b = 0;
    for (int j = 0; j < d; j++) (R[j][i] < 0 ? a : b) += R[j][i];
    lo[i] = lfloor(v[i] + a);
    hi[i] = lfloor(v[i] + b) + 1;
  }
  mpq_class sum = 0;
  npts = 0;
  p = lo;
  while (1) {
    bool in = true;
    for (int i = 0; i < d && in; i++) {
      long s = 0;
      for (int j = 0; j < d; j++) s += C[i][j] * (p[j] * L - w[j]);
      if (D < 0) s = -s;
      in = s >= 0 && s < labs(D) * L;
    }
    if (in) {
      vector<mpz_class> e(p.begin(), p.end());
      sum += power(e);
      npts++;
    }
    int i = 0;
    while (i < d && ++p[i] > hi[i]) { p[i] = lo[i]; i++; }
    if (i == d) break;
  }
  for (int i = 0; i < d; i++) {
    vector<mpz_class> e(R[i].begin(), R[i].end());
    sum /= 1 - power(e);
  }
  return sum;
}

static long runs, pieces;

static bool check(const vector<V> &R, const Q &v, int mode, long maxdet, const mpq_class &want)
{
  int d = R.size();
  ostringstream name;
  name << "one " << mode << " " << maxdet << " ";
  for (int i = 0; i < d; i++) name << (i ? "," : "") << v[i];
  for (int i = 0; i < d; i++)
    for (int j = 0; j < d; j++) name << (j ? "," : " ") << R[i][j];
  current = name.str();
  BarvinokParameters params;
  params.Number_of_Variables = d;
  params.max_determinant = maxdet;
  params.File_Name = "kernel";
  params.Flags = 0;
  params.decomposition = mode == 0 ? BarvinokParameters::DualDecomposition
    : mode == 1 ? BarvinokParameters::IrrationalPrimalDecomposition : BarvinokParameters::IrrationalAllPrimalDecomposition;
  listCone *cone = createListCone();
  vec_ZZ num, den;
  num.SetLength(d);
  den.SetLength(d);
  for (int i = 0; i < d; i++) {
    num[i] = v[i].get_num().get_si();
    den[i] = v[i].get_den().get_si();
  }
  cone->coefficient = 1;
  cone->vertex = new Vertex(new rationalVector(num, den));
  for (int i = d - 1; i >= 0; i--) {
    vec_ZZ r;
    r.SetLength(d);
    for (int j = 0; j < d; j++) r[j] = R[i][j];
    cone->rays = new listVector(r, cone->rays);
  }
  dualizeCone(cone, d, &params);
  if (mode == 2) {
    dualizeCone(cone, d, &params);
    irrationalizeCones(cone, d);
  }
  listCone *dec = decomposeCones(cone, false, params);
  computePointsInParallelepipeds(dec, d, &params);
  vec_ZZ generic;
  generic.SetLength(d);
  for (int i = 0; i < d; i++) generic[i] = i ? 1000 * generic[i - 1] : to_ZZ(1);
  mpq_class got = 0;
  string why;
  for (listCone *c = dec; c; c = c->rest) {
    pieces++;
    mpq_class t = 0;
    mpz_class n = 0, sp = 0, sq = 0;
    for (listVector *p = c->latticePoints; p; p = p->rest) {
      vector<mpz_class> e;
      ZZ ip;
      InnerProduct(ip, p->first, generic);
      sp += z(ip);
      for (int i = 0; i < d; i++) e.push_back(z(p->first[i]));
      t += power(e);
      n += 1;
    }
    vector<V> M;
    for (listVector *r = c->rays; r; r = r->rest) {
      vector<mpz_class> e;
      V m;
      for (int i = 0; i < d; i++) {
        e.push_back(z(r->first[i]));
        m.push_back(e.back().get_si());
      }
      M.push_back(m);
      t /= 1 - power(e);
    }
    got += c->coefficient * t;
    long D = (int) M.size() == d ? labs(det(M)) : 0;
    if (D == 0) why = "a piece is not simplicial and full-dimensional";
    else if (maxdet && D > maxdet) why = "a piece has index above the limit";
    else if (n != D) why = "a parallelepiped has the wrong number of points";
    computeLatticePointsScalarProducts(c, d, generic, &params);
    for (long i = 0; i < c->lattice_points_scalar_products.length(); i++) sq += z(c->lattice_points_scalar_products[i]);
    if (sq != sp || c->lattice_points_scalar_products.length() != n) why = "the scalar products are not those of the points";
  }
  runs++;
  freeListCone(dec);
  freeListCone(cone);
  if (why.empty() && got != want) why = "the generating functions differ";
  if (!why.empty()) {
    cout << "BAD " << current << ": " << why << endl;
    return false;
  }
  return true;
}

static Q vertexno(int k, int d)
{
  static const int N[5][5] = {{0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}, {1, -2, 7, 3, -1}, {-1, 4, 0, -5, 2}, {-5, 1, 2, 9, -4}};
  static const int D[5][5] = {{1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}, {3, 5, 4, 7, 2}, {1, 1, 1, 1, 1}, {2, 3, 1, 4, 3}};
  Q v;
  for (int i = 0; i < d; i++) {
    v.push_back(mpq_class(N[k][i], D[k][i]));
    v.back().canonicalize();
  }
  return v;
}

static long binomial(long n, int k)
{
  __int128 b = 1;
  for (int i = 0; i < k; i++) b = b * (n - i) / (i + 1);
  return n < k ? 0 : (long) b;
}

// The index-th d-subset in the combinatorial number system.
static vector<long> subset(long index, int d)
{
  vector<long> S(d);
  for (int k = d; k > 0; k--) {
    long c = k - 1;
    while (binomial(c + 1, k) <= index) c++;
    S[k - 1] = c;
    index -= binomial(c, k);
  }
  return S;
}

int main(int argc, char **argv)
{
  cerr.rdbuf(0);
  int sigs[] = {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM};
  for (int s : sigs) signal(s, died);
  if (!strcmp(argv[1], "one")) {
    vector<V> R;
    Q v;
    for (int i = 4; i < argc; i++) {
      istringstream s(argv[i]);
      string t;
      V r;
      while (getline(s, t, ',')) {
        if (i == 4) { v.push_back(mpq_class(t)); v.back().canonicalize(); }
        else r.push_back(atol(t.c_str()));
      }
      if (i > 4) R.push_back(r);
    }
    long n;
    mpq_class w = truth(R, v, n);
    alarm(60);
    return check(R, v, atoi(argv[2]), atol(argv[3]), w) ? 0 : 1;
  }
  int d = atoi(argv[1]), lo = atoi(argv[2]), hi = atoi(argv[3]);
  long slice = atol(argv[4]), n = atol(argv[5]), step = atol(argv[6]);
  bool all = atoi(argv[7]);
  vector<V> P;
  V p(d, lo);
  while (1) {
    long g = 0;
    for (int i = 0; i < d; i++) {
      long a = labs(p[i]), b = g;
      while (b) { long t = a % b; a = b; b = t; }
      g = a;
    }
    if (g == 1) P.push_back(p);
    int i = 0;
    while (i < d && ++p[i] > hi) { p[i] = lo; i++; }
    if (i == d) break;
  }
  long cones = 0, total = binomial(P.size(), d);
  static const long LIMITS[4] = {1, 0, 2, 5};
  int bad = 0;
  for (long index = slice * step; index < total && bad < 6; index += n * step) {
    vector<long> S = subset(index, d);
    vector<V> R;
    for (int i = 0; i < d; i++) R.push_back(P[S[(i + index) % d]]);
    long D = det(R);
    if (!D) continue;
    cones++;
    long k = index / step / n;
    for (int vi = 0; vi < 5; vi++) {
      if (!all && vi != k % 5) continue;
      Q v = vertexno(vi, d);
      long np;
      mpq_class w = truth(R, v, np);
      if (np != labs(D)) { cout << "ORACLE" << endl; return 2; }
      for (int mode = 0; mode < 3; mode++)
        for (int l = 0; l < 4; l++)
          if (all || l == (k + mode) % 4) {
            alarm(60);
            if (!check(R, v, mode, LIMITS[l], w)) bad++;
          }
    }
  }
  if (bad) return 1;
  cout << "cones " << cones << " runs " << runs << " pieces " << pieces << endl;
  return 0;
}
