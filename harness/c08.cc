// C08: histories of registering and flushing against a model with big integers.
#include "stores.hh"
#include <thread>
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>

// threads lose time where a lock is given back, so that others come between
static std::atomic<unsigned> shake{0};
static void maybe_wait()
{
  unsigned seed = shake.load(std::memory_order_relaxed);
  if ( !seed ) return;
  static thread_local unsigned state = 0;
  static std::atomic<unsigned> threads{0};
  if ( !state ) state = seed + 7919 * ++threads;
  state = state * 1103515245u + 12345u;
  if ( (state >> 16) % 3 == 0 ) usleep((state >> 20) % 120);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static auto real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m); maybe_wait(); return r;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  static auto real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  int r = real(m); maybe_wait(); return r;
}

struct Entry { FieldShape s; vector<unsigned> e; shared_ptr<Curve> curve; Key key, twisted; Int mult; };

static Entry gen_entry(Case & c, const FieldShape & s, unsigned top)
{
  Entry x; x.s = s;
  auto b = base(s.p,s.r); auto & F = *b->field;
  ref::poly f;
  for ( unsigned attempt=0; ; ++attempt ) {
    if ( attempt == 60 ) c.discard();
    f = to_poly(*b, gen_exponents(c, s.q, s.q <= 30 && c.chance(1,30) ? gen_wide_degree(c,40) : gen_degree(c,8)));
    if ( ref::squarefree(F,f) ) break;
  }
  x.e = to_exponents(*b,f);
  x.curve = make_shared<Curve>(b->table, x.e);
  x.curve->has_squarefree_rhs();
  vector<unsigned> order;
  for ( unsigned l=1; l<=top; ++l ) order.push_back(l);
  for ( unsigned k=order.size(); k-->1; ) std::swap(order[k], order[c.pick(k+1)]);
  for ( unsigned l : order ) x.curve->count(reduction(s.p, s.r*l));
  x.key.first = ref::ramification(F,f);
  for ( unsigned l=1; l<=top; ++l ) {
    auto n = ref::count_points(*ext(s.p,s.r,l), f);
    x.key.second.push_back((int)((int64_t)ref::ipow(s.q,l) + 1 - (int64_t)n.first - (int64_t)n.second));
  }
  x.twisted = x.key;
  for ( unsigned l=1; l<=top; l+=2 ) x.twisted.second[l-1] *= -1;
  vector<unsigned> support;
  for ( unsigned k=0; k<x.e.size(); ++k ) if ( x.e[k] != s.q-1 ) support.push_back(k);
  fmpz_t m; fmpz_init(m);
  CurveIterator::multiplicity(m, s.p, s.q, support);
  char * t = fmpz_get_str(nullptr, 10, m); x.mult = Int(t); flint_free(t); fmpz_clear(m);
  return x;
}
static void gen_pool(Case & c, vector<Entry> & pool)
{
  unsigned nmb = 1 + c.pick(6);
  FieldShape s; unsigned top = 1;
  for ( unsigned k=0; k<nmb; ++k ) {
    if ( k == 0 || c.chance(1,6) ) {
      s = gen_field(c, c.chance(1,5) ? 300 : 30); s.r *= s.l; s.l = 1; s.q = s.Q;
      unsigned most = c.chance(1,6) ? 8 : 4;
      top = 1; while ( top < most && ref::ipow(s.q,top+1) <= (most == 8 ? 8000 : 1500) ) ++top;
      top = 1 + c.pick(top);
    }
    pool.push_back(gen_entry(c, s, top));
    c.desc << k << ": F_" << s.p << "^" << s.r << " [" << str(pool.back().e) << "]; ";
    if ( pool.back().key == pool.back().twisted ) c.label("equal to its twist");
  }
}
static void compare(const string & got, const Results & want, const char * what)
{
  Results r = parse_results(got), w;
  for ( auto & x : want ) if ( x.second != 0 ) w[x.first] = x.second;
  PBT_CHECK(r == w, what << ":\n" << got << "expected:\n" << text(w));
}
static void register_in(Results & r, const Entry & x) { r[x.key] += x.mult; r[x.twisted] += x.mult; }

PBT_PROPERTY(histories, 6)
{
  auto factory = create_store_factory(StoreType::EC);
  factory->create()->flush_static_store();
  vector<Entry> pool; gen_pool(c, pool);
  struct Local { shared_ptr<StoreInterface> store; Results results; bool registers; };
  vector<Local> stores;
  Results shared; Record record;
  unsigned steps = 1 + c.sized(40), flushes = 0, drains = 0;
  for ( unsigned k=0; k<steps; ++k )
    switch ( stores.empty() ? 0 : c.weighted({1,10,4,2,1,1}) ) {
      case 0: {
        if ( stores.size() >= 5 ) break;
        Local l; l.store = factory->create(); l.registers = !c.chance(1,5);
        if ( !l.registers ) {              // filled from text with arbitrary counts
          unsigned n = c.chance(1,12) ? 50 + c.pick(300) : 1 + c.pick(5);
          for ( unsigned j=0; j<n; ++j ) { Results one; one[c.chance(1,2) ? c.of(pool).key : gen_key(c)] = gen_count(c); l.store->extract(std::stringstream(text(one))); add(l.results, one); }
          c.label("store read from text");
        }
        stores.push_back(l); c.desc << "new "; break;
      }
      case 1: {
        unsigned ix = c.pick(stores.size()), jx = c.pick(pool.size());
        if ( !stores[ix].registers ) break;
        stores[ix].store->register_curve(*pool[jx].curve);
        register_in(stores[ix].results, pool[jx]);
        c.desc << "register(" << ix << "," << jx << ") "; break;
      }
      case 2: {
        unsigned ix = c.pick(stores.size()); Block b = gen_block(c);
        stores[ix].store->flush_to_static_store(b);
        add(shared, stores[ix].results); stores[ix].results.clear(); record.insert(b); stores[ix].registers = true;
        ++flushes; c.desc << "flush(" << ix << ", " << text(b) << ") "; break;
      }
      case 3: {
        auto got = c.of(stores).store->flush_static_store();
        compare(get<1>(got), shared, "shared results");
        PBT_CHECK(parse_record(get<0>(got)) == record, "recorded blocks\n" << get<0>(got) << "expected\n" << text(record));
        shared.clear(); record.clear(); ++drains; c.desc << "drain "; break;
      }
      case 4: {
        unsigned ix = c.pick(stores.size()); std::ostringstream os;
        stores[ix].store->insert(os);
        compare(os.str(), stores[ix].results, "results of one store"); break;
      }
      default: {
        unsigned ix = c.pick(stores.size()); stores.erase(stores.begin()+ix); c.desc << "drop(" << ix << ") ";
      }
    }
  auto got = factory->create()->flush_static_store();
  compare(get<1>(got), shared, "shared results at the end");
  PBT_CHECK(parse_record(get<0>(got)) == record, "recorded blocks at the end\n" << get<0>(got) << "expected\n" << text(record));
  got = factory->create()->flush_static_store();
  PBT_CHECK(get<0>(got).empty() && get<1>(got).empty(), "shared results are handed out twice: " << get<0>(got) << get<1>(got));
  if ( flushes ) c.nontrivial();
  if ( drains ) c.label("intermediate flush of the shared results");
}

// the same registrations, spread over threads which flush at the same time while shared results are taken out
PBT_PROPERTY(threads, 1)
{
  auto factory = create_store_factory(StoreType::EC);
  factory->create()->flush_static_store();
  vector<Entry> pool; gen_pool(c, pool);
  unsigned nmb = 2 + (c.chance(1,10) ? c.pick(24) : c.pick(4)), takes = c.pick(12);
  Results want; Record record; map<Block,Results> alone;
  vector<vector<std::pair<Block,vector<unsigned>>>> plan(nmb);
  unsigned id = 0;
  for ( auto & p : plan ) {
    unsigned flushes = 1 + c.pick(8);
    for ( unsigned k=0; k<flushes; ++k ) {
      Block b = gen_block(c,3); b.push_back(std::make_tuple(id,id+1)); ++id;
      vector<unsigned> regs; unsigned n = c.pick(5);
      for ( unsigned j=0; j<n; ++j ) { regs.push_back(c.pick(pool.size())); register_in(want, pool[regs.back()]); register_in(alone[b], pool[regs.back()]); }
      record.insert(b); p.push_back({b,regs});
    }
  }
  shake = c.chance(3,4) ? 1 + c.pick(1 << 20) : 0;
  vector<std::thread> ts;
  for ( auto & p : plan ) ts.emplace_back([&p,&pool,&factory]() {
    for ( auto & x : p ) {
      auto store = factory->create();
      for ( unsigned j : x.second ) store->register_curve(*pool[j].curve);
      store->flush_to_static_store(x.first);
    }
  });
  Results got; Record got_record; bool twice = false;
  auto take = [&]() {
    auto t = factory->create()->flush_static_store();
    Results part = parse_results(get<1>(t)), of_blocks;
    add(got, part);
    for ( auto & b : parse_record(get<0>(t)) ) {
      twice |= !got_record.insert(b).second;
      auto it = alone.find(b);
      if ( it != alone.end() ) add(of_blocks, it->second);
    }
    PBT_CHECK(part == of_blocks, "results handed out:\n" << text(part) << "the blocks handed out with them have:\n" << text(of_blocks));
  };
  vector<pbt::Fail> errors;
  try { for ( unsigned k=0; k<takes; ++k ) { maybe_wait(); take(); } } catch ( const pbt::Fail & e ) { errors.push_back(e); }
  for ( auto & t : ts ) t.join();
  shake = 0;
  if ( !errors.empty() ) throw errors[0];
  take();
  PBT_CHECK(!twice, "a block was handed out twice");
  PBT_CHECK(got == want, "results of " << nmb << " threads:\n" << text(got) << "expected:\n" << text(want));
  PBT_CHECK(got_record == record, "record of " << nmb << " threads:\n" << text(got_record) << "expected:\n" << text(record));
  c.nontrivial();
}

// the weights and keys that results are made of
PBT_PROPERTY(weights, 1)
{
  vector<Entry> pool; gen_pool(c, pool);
  vector<HyCu::StoreData::Count> counts;
  vector<HyCu::CurveData::ExplicitRamificationHasseWeil> keys;
  for ( auto & x : pool ) { counts.emplace_back(*x.curve); keys.emplace_back(*x.curve); }
  for ( size_t i=0; i<pool.size(); ++i ) {
    HyCu::StoreData::Count::ValueType sum, w(counts[i]), w2(w);
    std::ostringstream os; os << w;
    PBT_CHECK(Int(os.str()) == pool[i].mult, "weight of curve " << i << " is " << os.str() << ", not " << pool[i].mult);
    PBT_CHECK(counts[i].twist() == counts[i], "the weights of curve " << i << " and of its twist differ");
    sum += counts[i]; sum += w2; w = sum;
    std::ostringstream twice; twice << w;
    PBT_CHECK(Int(twice.str()) == 2*pool[i].mult && w == sum, "twice the weight of curve " << i << " is " << twice.str());
    PBT_CHECK(keys[i].twist().twist().as_value() == keys[i].as_value(), "the twist of the twist of curve " << i << " has another type");
    PBT_CHECK((keys[i].twist().as_value() == keys[i].as_value()) == (pool[i].key == pool[i].twisted), "curve " << i << " compared with its twist");
    std::less<HyCu::CurveData::ExplicitRamificationHasseWeil::ValueType> less;
    for ( size_t j=0; j<pool.size(); ++j ) {
      PBT_CHECK((counts[i] == counts[j]) == (pool[i].mult == pool[j].mult), "weights " << pool[i].mult << " and " << pool[j].mult << " compared");
      if ( pool[i].key.second.size() == pool[j].key.second.size() ) {
        PBT_CHECK((keys[i].as_value() == keys[j].as_value()) == (pool[i].key == pool[j].key), "types of curves " << i << " and " << j << " compared");
        PBT_CHECK(less(keys[i].as_value(), keys[j].as_value()) + less(keys[j].as_value(), keys[i].as_value()) == (pool[i].key != pool[j].key), "order of the types of curves " << i << " and " << j);
      }
    }
  }
  c.nontrivial();
}
