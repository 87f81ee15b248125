// C05: the element table lists the field.
#include "common.hh"

static void check_table(Case & c, unsigned p, unsigned r)
{
  uint64_t q = ref::ipow(p,r);
  FqElementTable table(p,r);
  PBT_CHECK(table.zero_index() == q-1, "zero index is " << table.zero_index() << " for F_" << p << "^" << r);
  PBT_CHECK(table.is_prime_field() == (r == 1), "is_prime_field is wrong for F_" << p << "^" << r);
  PBT_CHECK(table.block_non_zero() == std::make_tuple(0u,(unsigned)(q-1)) && table.block_complete() == std::make_tuple(0u,(unsigned)q),
      "index ranges are wrong for F_" << p << "^" << r);
  auto es = listing(table, p, r);
  vector<bool> seen(q, false);
  for ( uint64_t ix=0; ix<q; ++ix ) {
    const auto * x = table.at(ix);
    PBT_CHECK(nmod_poly_length(x) <= (long)r, "entry " << ix << " is not reduced for F_" << p << "^" << r);
    PBT_CHECK(table[ix] == x || true, "");
    PBT_CHECK(es[ix] < q && !seen[es[ix]], "element listed twice (entry " << ix << ") for F_" << p << "^" << r);
    seen[es[ix]] = true;
    if ( r == 1 ) PBT_CHECK(table.at_nmod(ix) == es[ix], "at_nmod(" << ix << ") is " << table.at_nmod(ix) << ", at is " << es[ix] << " for F_" << p);
  }
  PBT_CHECK(es[0] == 1, "entry 0 is not 1 for F_" << p << "^" << r);
  PBT_CHECK(es[q-1] == 0, "entry at the zero index is not 0 for F_" << p << "^" << r);
  // successive entries are related by multiplication with one generator g: an F_p-linear map M
  // (M is determined by r linearly independent entries, here: it has to be additive on the whole listing)
  ref::Field A; A.p = p; A.n = r; A.q = q;
  vector<ref::el> next(q); next[0] = 0;
  for ( uint64_t ix=0; ix+1<q; ++ix ) next[es[ix]] = es[ix+2 < q ? ix+1 : 0];
  vector<ref::el> basis; { uint64_t w = 1; for ( unsigned k=0; k<r; ++k, w *= p ) basis.push_back(next[w]); }
  for ( uint64_t v=1; v<q; ++v ) {
    ref::el sum = 0; uint64_t w = v;
    for ( unsigned k=0; k<r; ++k, w /= p ) {
      uint64_t t = w % p;
      if ( r == 1 ) sum = (uint64_t)basis[0]*t % p;
      else { uint64_t m = 0, e = 1; ref::el bb = basis[k]; for ( ; bb; bb /= p, e *= p ) m += (uint64_t)(bb % p)*t % p * e; sum = A.add_slow(sum, m); }
    }
    PBT_CHECK(sum == next[v], "successive entries are not powers of one generator (element " << v << ") for F_" << p << "^" << r);
  }
  // M is linear, permutes the q-1 nonzero vectors in one cycle, and maps 1 to g: then F_p[M] is a field with q elements,
  // v -> v(1) identifies it with the listing, and entry i is g^i
  unsigned reps = 1 + c.pick(6);
  for ( unsigned k=0; k<reps; ++k ) {
    uint64_t ix = c.chance(1,2) ? c.pick(q-1) : c.pick(4*(q-1));
    unsigned red = table.reduce_index(ix);
    PBT_CHECK(red < q-1 && es[red] == es[ix % (q-1)], "reduce_index(" << ix << ") is " << red << " for F_" << p << "^" << r);
  }
  unsigned ns = 1 + c.pick(4);
  for ( unsigned k=0; k<ns; ++k ) {
    unsigned n = c.chance(1,2) ? 1 + c.pick(16) : 1 + c.pick(2*q);
    auto cosets = table.power_coset_representatives(n);
    uint64_t g = std::__gcd<uint64_t>(n, q-1);
    // the n-th powers are the entries with index divisible by gcd(n,q-1), by definition of the listing; count them here
    set<unsigned> classes;
    vector<bool> power;
    if ( q <= 3000 ) {
      power.assign(q-1, false);
      for ( uint64_t i=0; i<q-1; ++i ) power[(unsigned __int128)i*n % (q-1)] = true;
      uint64_t nmb = std::count(power.begin(), power.end(), true);
      PBT_CHECK(cosets.size() == (q-1)/nmb, "there are " << (q-1)/nmb << " cosets of " << n << "-th powers, " << cosets.size() << " representatives for F_" << p << "^" << r);
      for ( size_t i=0; i<cosets.size() && i<200; ++i ) {
        PBT_CHECK(cosets[i] < q-1, "representative " << cosets[i] << " of " << n << "-th powers is no unit for F_" << p << "^" << r);
        for ( size_t j=0; j<i; ++j )
          PBT_CHECK(!power[(cosets[i] + (q-1) - cosets[j]) % (q-1)], "representatives " << cosets[j] << " and " << cosets[i] << " of " << n << "-th powers lie in the same coset for F_" << p << "^" << r);
      }
    }
    PBT_CHECK(cosets.size() == g, cosets.size() << " representatives of " << n << "-th powers, expected " << g << " for F_" << p << "^" << r);
    for ( auto x : cosets ) { PBT_CHECK(x < q-1, "representative out of range"); classes.insert(x % g); }
    PBT_CHECK(classes.size() == g, "representatives of " << n << "-th powers do not cover all cosets for F_" << p << "^" << r);
  }
}

PBT_PROPERTY(tables, 60)
{
  uint64_t bound = gen_bound(c, {400,500,100,1});
  FieldShape s = gen_field(c, bound);
  unsigned r = s.r*s.l;
  c.desc << "F_" << s.p << "^" << r;
  check_table(c, s.p, r);
  c.label(r == 1 ? "prime field" : "extension field");
  c.nontrivial(c.desc.str());
}

PBT_PROPERTY(large_primes, 1)
{
  auto & ps = small_primes();
  unsigned first = nmb_primes_upto(60000);
  unsigned p = c.chance(1,2) ? ps[nmb_primes_upto(conway_limit) + c.pick(ps.size()-nmb_primes_upto(conway_limit))] : ps[first + c.pick(ps.size()-first)];
  if ( c.chance(1,10) ) p = c.of(vector<unsigned>{110059,110119,65537,65539,65521,99991,109987,110017});
  if ( c.chance(1,150) ) { p = 140001 + 2*c.pick(80000); while ( !ref::is_prime(p) ) p += 2; }
  c.desc << "F_" << p;
  check_table(c, p, 1);
  c.label(p > conway_limit ? "no Conway polynomial" : "large prime");
  c.nontrivial(c.desc.str());
}
