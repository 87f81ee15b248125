// Reference arithmetic which shares nothing with /repo nor FLINT: finite fields as polynomials with their own
// tables, point counts by definition, squarefree test and factor degrees.
#ifndef REF_HH
#define REF_HH

#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <utility>
#include <vector>

namespace ref {

typedef uint32_t el;                 // an element: its coefficients as base p digits, 0 is zero, 1 is one
typedef std::vector<el> poly;        // constant term first

inline std::vector<uint64_t> prime_factors(uint64_t n)
{
  std::vector<uint64_t> f;
  for ( uint64_t d=2; d*d<=n; ++d ) if ( n % d == 0 ) { f.push_back(d); while ( n % d == 0 ) n /= d; }
  if ( n > 1 ) f.push_back(n);
  return f;
}
inline bool is_prime(uint64_t n)
{
  if ( n < 2 ) return false;
  for ( uint64_t d=2; d*d<=n; ++d ) if ( n % d == 0 ) return false;
  return true;
}
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while ( e-- ) r *= b; return r; }

struct Field
{
  uint32_t p; unsigned n; uint32_t q;             // q = p^n
  std::vector<el> exp;                            // exp[i] = gen^i, 0 <= i < q-1
  std::vector<uint32_t> log;                      // log[exp[i]] = i
  std::vector<uint8_t> roots;                     // number of y with y^2 = v
  std::vector<el> plus;                           // addition table for small fields

  el add_slow(el a, el b) const
  {
    if ( n == 1 ) { uint64_t s = (uint64_t)a + b; return s >= p ? s - p : s; }
    uint64_t r = 0, w = 1;
    while ( a || b ) {
      uint32_t s = a % p + b % p; if ( s >= p ) s -= p;
      r += s * w; w *= p; a /= p; b /= p;
    }
    return r;
  }
  el add(el a, el b) const { return plus.empty() ? add_slow(a,b) : plus[(size_t)a*q+b]; }
  el neg(el a) const
  {
    uint64_t r = 0, w = 1;
    for ( ; a; a /= p, w *= p ) r += ((p - a % p) % p) * w;
    return r;
  }
  el sub(el a, el b) const { return add(a, neg(b)); }
  el mul(el a, el b) const
  {
    if ( !a || !b ) return 0;
    uint64_t s = (uint64_t)log[a] + log[b];
    if ( s >= q-1 ) s -= q-1;
    return exp[s];
  }
  el inv(el a) const { if ( !a ) throw std::logic_error("inverse of zero"); return exp[(q-1-log[a]) % (q-1)]; }
  el pow(el a, uint64_t e) const
  {
    if ( e == 0 ) return 1;
    if ( !a ) return 0;
    return exp[(uint64_t)((unsigned __int128)log[a]*e % (q-1))];
  }
  el of_int(int64_t v) const { int64_t r = v % (int64_t)p; return r < 0 ? r + p : r; }   // prime subfield
  el nonsquare() const { for ( el a=1; a<q; ++a ) if ( roots[a] == 0 ) return a; throw std::logic_error("no nonsquare"); }
  bool is_square(el a) const { return roots[a] != 0; }

  void finish()                                   // exp and p, n, q are set
  {
    log.assign(q, 0);
    for ( uint32_t i=0; i+1<q; ++i ) log[exp[i]] = i;
    roots.assign(q, 0);
    for ( el y=0; y<q; ++y ) ++roots[mul(y,y)];
    if ( q <= 1024 ) {
      std::vector<el> t((size_t)q*q);
      for ( el a=0; a<q; ++a ) for ( el b=0; b<q; ++b ) t[(size_t)a*q+b] = add_slow(a,b);
      plus = t;
    }
  }
};
typedef std::shared_ptr<const Field> pField;

// field given by the list of the powers of a generator (as digit codes)
inline pField from_listing(uint32_t p, unsigned n, const std::vector<el> & powers)
{
  auto f = std::make_shared<Field>();
  f->p = p; f->n = n; f->q = ipow(p,n); f->exp = powers;
  if ( powers.size() != f->q-1 ) throw std::runtime_error("listing has the wrong length");
  std::vector<bool> seen(f->q, false);
  for ( el e : powers ) {
    if ( e == 0 || e >= f->q || seen[e] ) throw std::runtime_error("listing is not a list of distinct nonzero elements");
    seen[e] = true;
  }
  f->finish();
  return f;
}

// extension of degree l of a field: F[u]/h for an h found here, elements are base q digits; F is embedded as the constants
inline pField extension(const pField & F, unsigned l)
{
  if ( l == 1 ) return F;
  auto E = std::make_shared<Field>();
  E->p = F->p; E->n = F->n*l; E->q = ipow(F->q, l);
  uint64_t Q = E->q, q = F->q;
  auto primes = prime_factors(Q-1);
  uint64_t seed = Q*31 + l;
  typedef std::vector<el> V;
  V h(l);                                         // u^l = -(h_0 + ... )
  auto mulmod = [&](const V & a, const V & b) {
    V t(2*l-1, 0);
    for ( unsigned i=0; i<l; ++i ) if ( a[i] ) for ( unsigned j=0; j<l; ++j ) if ( b[j] ) t[i+j] = F->add(t[i+j], F->mul(a[i],b[j]));
    for ( unsigned k=2*l-2; k>=l; --k ) if ( t[k] ) {
      el c = F->neg(t[k]); t[k] = 0;
      for ( unsigned j=0; j<l; ++j ) t[k-l+j] = F->add(t[k-l+j], F->mul(c,h[j]));
    }
    t.resize(l); return t;
  };
  V one(l,0); one[0] = 1;
  auto power = [&](V b, uint64_t e) {
    V r = one;
    for ( ; e; e >>= 1 ) { if ( e & 1 ) r = mulmod(r,b); b = mulmod(b,b); }
    return r;
  };
  V u(l,0); u[1] = 1;
  while ( true ) {                                // u of order q^l-1 modulo h makes F[u]/h a field generated by u
    for ( auto & c : h ) { seed = seed*6364136223846793005ULL + 1442695040888963407ULL; c = (seed >> 33) % q; }
    if ( h[0] == 0 || power(u, Q-1) != one ) continue;
    bool ok = true;
    for ( auto ell : primes ) if ( power(u, (Q-1)/ell) == one ) { ok = false; break; }
    if ( ok ) break;
  }
  E->exp.resize(Q-1);
  V a = one;
  for ( uint64_t i=0; i+1<Q; ++i ) {
    uint64_t code = 0; for ( unsigned k=l; k-->0; ) code = code*q + a[k];
    E->exp[i] = code;
    el top = a[l-1];
    for ( unsigned k=l-1; k>0; --k ) a[k] = a[k-1];
    a[0] = 0;
    if ( top ) { el c = F->neg(top); for ( unsigned k=0; k<l; ++k ) a[k] = F->add(a[k], F->mul(c,h[k])); }
  }
  E->finish();
  return E;
}

// F_{p^n} on its own
inline pField prime_field(uint32_t p)
{
  auto f = std::make_shared<Field>();
  f->p = p; f->n = 1; f->q = p;
  auto pf = prime_factors(p-1);
  auto pw = [&](uint64_t b, uint64_t e) { uint64_t r = 1; for ( ; e; e >>= 1 ) { if ( e & 1 ) r = r*b % p; b = b*b % p; } return r; };
  uint64_t g = 1;
  for ( bool ok = false; !ok; ) { ++g; ok = true; if ( p == 3 ) { g = 2; break; } for ( auto ell : pf ) if ( pw(g,(p-1)/ell) == 1 ) { ok = false; break; } }
  uint64_t a = 1;
  for ( uint32_t i=0; i+1<p; ++i ) { f->exp.push_back(a); a = a*g % p; }
  f->finish();
  return f;
}
inline pField field(uint32_t p, unsigned n) { return extension(prime_field(p), n); }

inline void trim(poly & f) { while ( !f.empty() && f.back() == 0 ) f.pop_back(); }
inline int deg(const poly & f) { return (int)f.size()-1; }

// (unramified, ramified) points of y^2 = f over E, f over a subfield embedded as constants, deg f >= 1, f trimmed
inline std::pair<uint64_t,uint64_t> count_points(const Field & E, const poly & f)
{
  uint64_t unram = 0, ram = 0;
  for ( el x=0; x<E.q; ++x ) {
    el v = 0;
    for ( size_t k=f.size(); k-->0; ) v = E.add(E.mul(v,x), f[k]);
    if ( v == 0 ) ++ram; else unram += E.roots[v];
  }
  if ( deg(f) & 1 ) ++ram; else unram += E.roots[f.back()];
  return std::make_pair(unram, ram);
}

inline poly poly_mul(const Field & F, const poly & a, const poly & b)
{
  if ( a.empty() || b.empty() ) return {};
  poly r(a.size()+b.size()-1, 0);
  for ( size_t i=0; i<a.size(); ++i ) if ( a[i] ) for ( size_t j=0; j<b.size(); ++j ) r[i+j] = F.add(r[i+j], F.mul(a[i],b[j]));
  trim(r); return r;
}
inline poly poly_add(const Field & F, const poly & a, const poly & b)
{
  poly r(std::max(a.size(),b.size()), 0);
  for ( size_t i=0; i<r.size(); ++i ) r[i] = F.add(i<a.size()?a[i]:0, i<b.size()?b[i]:0);
  trim(r); return r;
}
inline poly poly_scale(const Field & F, el c, poly a) { for ( auto & x : a ) x = F.mul(x,c); trim(a); return a; }
inline poly poly_sub(const Field & F, const poly & a, const poly & b) { return poly_add(F, a, poly_scale(F, F.neg(1), b)); }
inline void poly_divmod(const Field & F, poly a, const poly & b, poly & quo, poly & rem)
{
  trim(a); quo.assign(a.size() >= b.size() ? a.size()-b.size()+1 : 0, 0);
  el li = F.inv(b.back());
  while ( a.size() >= b.size() ) {
    el c = F.mul(a.back(), li); size_t s = a.size()-b.size(); quo[s] = c;
    el m = F.neg(c);
    for ( size_t i=0; i<b.size(); ++i ) a[s+i] = F.add(a[s+i], F.mul(m,b[i]));
    trim(a);
  }
  trim(quo); rem = a;
}
inline poly poly_mod(const Field & F, const poly & a, const poly & b) { poly q, r; poly_divmod(F,a,b,q,r); return r; }
inline poly poly_div(const Field & F, const poly & a, const poly & b) { poly q, r; poly_divmod(F,a,b,q,r); return q; }
inline poly poly_gcd(const Field & F, poly a, poly b)
{
  trim(a); trim(b);
  while ( !b.empty() ) { poly r = poly_mod(F,a,b); a = b; b = r; }
  if ( !a.empty() ) a = poly_scale(F, F.inv(a.back()), a);
  return a;
}
inline poly poly_derivative(const Field & F, const poly & a)
{
  poly r; for ( size_t i=1; i<a.size(); ++i ) r.push_back(F.mul(F.of_int(i % F.p), a[i]));
  trim(r); return r;
}
inline bool squarefree(const Field & F, const poly & f) { return deg(poly_gcd(F, f, poly_derivative(F,f))) == 0; }
inline poly poly_powmod(const Field & F, poly b, uint64_t e, const poly & m)
{
  poly r{1}; r = poly_mod(F,r,m); b = poly_mod(F,b,m);
  for ( ; e; e >>= 1 ) { if ( e & 1 ) r = poly_mod(F, poly_mul(F,r,b), m); if ( e > 1 ) b = poly_mod(F, poly_mul(F,b,b), m); }
  return r;
}
// degrees of the irreducible factors of a squarefree f, ascending
inline std::vector<unsigned> factor_degrees(const Field & F, poly f)
{
  std::vector<unsigned> degs;
  trim(f);
  poly xq{0,1};
  for ( unsigned d=1; deg(f) >= (int)(2*d); ++d ) {
    xq = poly_powmod(F, xq, F.q, f);                     // x^(q^d) mod f
    poly g = poly_gcd(F, f, poly_sub(F, xq, poly{0,1}));
    for ( int k=0; k<deg(g); k+=d ) degs.push_back(d);
    if ( deg(g) > 0 ) { f = poly_div(F,f,g); if ( deg(f) > 0 ) xq = poly_mod(F,xq,f); }
  }
  if ( deg(f) > 0 ) degs.push_back(deg(f));
  std::sort(degs.begin(), degs.end());
  return degs;
}
inline std::vector<unsigned> ramification(const Field & F, const poly & f)
{
  auto d = factor_degrees(F,f);
  if ( deg(f) & 1 ) d.insert(d.begin(), 1);
  return d;
}
inline poly poly_compose_linear(const Field & F, const poly & f, el a, el b)     // f(ax+b)
{
  poly r; poly lin{b,a};
  for ( size_t k=f.size(); k-->0; ) { r = poly_mul(F,r,lin); r = poly_add(F, r, poly{f[k]}); }
  trim(r); return r;
}

} // namespace ref
#endif
