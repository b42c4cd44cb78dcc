// @property C08
// @bounds one-dimensional distributions of up to 1000 elements (all symbolic) over 1-5 subblocks and contiguity 1-4; Maps applied to up to 9, 5x4 and 3x3x2 elements over up to 12 subblocks, every processor ordering listed; all indices
// @assume up to 12 processor numbers per map; one process executes the queries (rank 0)
#include "c.h"
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vector>
using ovxx::Length;
// the defining relations of a one-dimensional distribution of n elements over s subblocks
template <typename D> void dist1(D const &d, long s) {
  length_type n = (length_type)vsx_int("n", 1, 1000); index_type i = (index_type)vsx_int("i", 0, 999); vsx_assume(i < n); Domain<1> dom(n);
  CHECK(d.num_subblocks() == (index_type)s, "a distribution reports its number of subblocks");
  index_type sb = d.impl_subblock_from_index(dom, i); CHECK(sb < (index_type)s, "every index belongs to a subblock");
  sb = (index_type)vsx_pick(sb); index_type l = d.impl_local_from_global_index(dom, i); CHECK(l < d.impl_subblock_size(dom, sb), "the local index lies in the subblock"); CHECK(d.impl_global_from_local_index(dom, sb, l) == i, "global and local indices correspond");
  index_type p = d.impl_patch_from_index(dom, i); CHECK(p < d.impl_subblock_patches(dom, sb), "every index belongs to a patch of its subblock");
  Domain<1> g = d.impl_patch_global_dom(dom, sb, p), q = d.impl_patch_local_dom(dom, sb, p); CHECK((g.stride() == 1) & (q.stride() == 1) & (g.size() == q.size()), "a patch has the same extent globally and locally"); CHECK((i >= g.first()) & (i < g.first() + g.size()) & (l >= q.first()) & (l < q.first() + q.size()) & (i - g.first() == l - q.first()), "the patch of an index contains it at the same offset");
  length_type tot = 0; for (long k = 0; k < s; ++k) tot += d.impl_subblock_size(dom, k); CHECK(tot == n, "the subblocks hold every element exactly once"); }
// conversely, every local index of every subblock
template <typename D> void dist2(D const &d, long s) {
  length_type n = (length_type)vsx_int("n", 1, 1000); Domain<1> dom(n); index_type sb = (index_type)pick("sb", 0, s - 1); index_type l = (index_type)vsx_int("l", 0, 999); vsx_assume(l < d.impl_subblock_size(dom, sb));
  index_type g = d.impl_global_from_local_index(dom, sb, l); CHECK(g < n, "a local index names an element"); CHECK(d.impl_subblock_from_index(dom, g) == sb, "a local index names an element of its subblock"); CHECK(d.impl_local_from_global_index(dom, g) == l, "local and global indices correspond"); }
template <typename D> void dist3(D const &d, long s) { // patches of a subblock tile it
  length_type n = (length_type)vsx_int("n", 1, 1000); Domain<1> dom(n); index_type sb = (index_type)pick("sb", 0, s - 1); index_type p = (index_type)vsx_int("p", 0, 999); length_type np = d.impl_subblock_patches(dom, sb), sz = d.impl_subblock_size(dom, sb); vsx_assume(p < np); Domain<1> q = d.impl_patch_local_dom(dom, sb, p), g = d.impl_patch_global_dom(dom, sb, p);
  CHECK((p != 0) | (q.first() == 0), "the first patch starts the subblock"); CHECK((p + 1 != np) | (q.first() + q.size() == sz), "the last patch ends the subblock"); if (p + 1 < np) CHECK(d.impl_patch_local_dom(dom, sb, p + 1).first() == q.first() + q.size(), "patches follow each other in the subblock"); CHECK(g.first() + g.size() <= n, "a patch lies in the domain"); CHECK((q.size() > 0) | (sz == 0), "no patch of a non-empty subblock is empty"); }
#define D1(F) long s = 1 + vsx_param() % 5, c = vsx_param() / 5; if (c == 0) F(Block_dist(s), s); else if (c < 5) F(Cyclic_dist(s, c), s); else F(Whole_dist(), 1);
// @entry c08_dist1 params=0-25 timeout=60000
ENTRY(c08_dist1) { vsipl init; D1(dist1) }
// @entry c08_dist2 params=0-25 timeout=60000
ENTRY(c08_dist2) { vsipl init; D1(dist2) }
// @entry c08_dist3 params=0-25 timeout=60000
ENTRY(c08_dist3) { vsipl init; D1(dist3) }
// maps
template <int K> Index<1> ix(Index<1> *, index_type a, index_type, index_type) { return Index<1>(a); } template <int K> Index<2> ix(Index<2> *, index_type a, index_type b, index_type) { return Index<2>(a, b); } template <int K> Index<3> ix(Index<3> *, index_type a, index_type b, index_type c) { return Index<3>(a, b, c); }
template <dimension_type D, typename F> void idxs(Domain<D> const &d, F f) { index_type n[3] = { 1, 1, 1 }; for (dimension_type k = 0; k < D; ++k) n[k] = d[k].size(); for (index_type a = 0; a < n[0]; ++a) for (index_type b = 0; b < n[1]; ++b) for (index_type c = 0; c < n[2]; ++c) f(ix<0>((Index<D> *)0, a, b, c)); }
template <dimension_type D> Index<D> nth(Domain<D> const &d, Index<D> i) { Index<D> r; for (dimension_type k = 0; k < D; ++k) r[k] = d[k].impl_nth(i[k]); return r; }
template <dimension_type D> long lin(Index<D> i, Domain<D> const &d) { long r = 0; for (dimension_type k = 0; k < D; ++k) r = r * (long)d[k].size() + (long)i[k]; return r; }
template <dimension_type D, typename M, typename V> void mapped(M const &m, Domain<D> dom, std::vector<processor_type> const &pv, V const &v) {
  CHECK(m.num_subblocks() <= pv.size(), "set-up"); length_type prod = 1; for (dimension_type k = 0; k < 3; ++k) prod *= m.num_subblocks(k); CHECK(prod == m.num_subblocks(), "the number of subblocks is the product over the dimensions");
  CHECK(vsip::num_subblocks(v) == m.num_subblocks(), "a view reports the subblocks of its map"); std::vector<int> seen(dom.size(), 0); 
  for (index_type sb = 0; sb < m.num_subblocks(); ++sb) { CHECK(*m.processor_begin(sb) == pv[sb], "subblocks are assigned to the processors in order"); CHECK(m.processor_end(sb) - m.processor_begin(sb) == 1, "a subblock of a Map is held by one processor"); CHECK(m.subblock(pv[sb]) == sb, "a processor holds the subblock assigned to it"); CHECK(vsip::subblock(v, pv[sb]) == sb, "a processor holds the subblock assigned to it"); CHECK(m.processor_set().get(sb) == pv[sb], "processor_set lists the processors of the map");
    Domain<D> sd = vsip::subblock_domain(v, sb); length_type held = 0; std::vector<int> loc(sd.size(), 0);
    for (index_type p = 0; p < vsip::num_patches(v, sb); ++p) { Domain<D> g = vsip::global_domain(v, sb, p), l = vsip::local_domain(v, sb, p); for (dimension_type k = 0; k < D; ++k) CHECK(g[k].size() == l[k].size(), "a patch has the same extent globally and locally");
      idxs<D>(g, [&](Index<D> o) { Index<D> gi = nth<D>(g, o), li = nth<D>(l, o); ++held; bool in = true; for (dimension_type k = 0; k < D; ++k) in &= (gi[k] < dom[k].size()) & (li[k] < sd[k].size()); CHECK(in, "patches lie in the domain and in the subblock"); if (!in) return; seen[lin<D>(gi, dom)]++; loc[lin<D>(li, sd)]++;
        CHECK(vsip::subblock_from_global_index(v, gi) == sb, "the subblock of a global index is the one whose patch contains it"); CHECK(vsip::patch_from_global_index(v, gi) == p, "the patch of a global index is the one that contains it"); CHECK(m.impl_patch_from_global_index(gi) == p, "the patch of a global index is the one that contains it");
        Index<D> a = vsip::local_from_global_index(v, gi), b = vsip::global_from_local_index(v, sb, li); for (dimension_type k = 0; k < D; ++k) { CHECK(a[k] == li[k], "local and global indices correspond"); CHECK(b[k] == gi[k], "local and global indices correspond"); CHECK(vsip::local_from_global_index(v, k, gi[k]) == li[k], "local and global indices correspond"); } }); }
    CHECK(held == sd.size(), "the patches of a subblock hold all of it"); for (int c : loc) CHECK(c == 1, "every element of a subblock belongs to exactly one patch");
    auto e = m.template impl_subblock_extent<D>(sb); for (dimension_type k = 0; k < D; ++k) CHECK(e[k] == sd[k].size(), "extent and domain of a subblock agree"); }
  for (int c : seen) CHECK(c == 1, "every global element belongs to exactly one patch of one subblock");
  CHECK(m.subblock(99) == no_subblock, "a processor outside the map holds no subblock"); index_type mine = no_subblock; for (index_type k = 0; k < m.num_subblocks(); ++k) if (pv[k] == 0) mine = k; CHECK(m.subblock() == mine, "the local subblock is that of the local processor"); CHECK(vsip::subblock(v) == mine, "the local subblock is that of the local processor"); CHECK(vsip::subblock_domain(v).size() == (mine == no_subblock ? 0 : vsip::subblock_domain(v, mine).size()), "the local subblock is that of the local processor"); CHECK(v.local().size() == vsip::subblock_domain(v).size(), "the local view has the extent of the local subblock");
  M c(m); CHECK(c == m, "a copied map equals the original"); }
static std::vector<processor_type> procs(length_type n, int k) { std::vector<processor_type> p(n); for (length_type i = 0; i < n; ++i) p[i] = k == 0 ? i : k == 1 ? n - 1 - i : (i + 1) % n + (i == n - 1 ? 20 : 0); return p; }
static Vector<processor_type> pview(std::vector<processor_type> const &p) { Vector<processor_type> v(p.size()); for (index_type i = 0; i < p.size(); ++i) v.put(i, p[i]); return v; }
template <typename A> void map1(A a, int k) { typedef Map<A> M; std::vector<processor_type> p = procs(a.num_subblocks(), k); M m(pview(p), a); length_type n = len("n", 1, 9); Vector<float, Dense<1, float, row1_type, M> > v(n, m); mapped<1>(v.block().map(), Domain<1>(n), p, v); }
template <typename A, typename B, typename O> void map2(A a, B b, int k) { typedef Map<A, B> M; std::vector<processor_type> p = procs(a.num_subblocks() * b.num_subblocks(), k); M m(pview(p), a, b); length_type n = len("n", 1, 5), q = len("q", 1, 4); Matrix<float, Dense<2, float, O, M> > v(n, q, m); mapped<2>(v.block().map(), Domain<2>(n, q), p, v); }
template <typename A, typename B, typename C> void map3(A a, B b, C c, int k) { typedef Map<A, B, C> M; std::vector<processor_type> p = procs(a.num_subblocks() * b.num_subblocks() * c.num_subblocks(), k); M m(pview(p), a, b, c); length_type n = len("n", 1, 3), q = len("q", 1, 3), r = len("r", 1, 2); Tensor<float, Dense<3, float, tuple<2, 0, 1>, M> > v(n, q, r, m); mapped<3>(v.block().map(), Domain<3>(n, q, r), p, v); }
// @entry c08_map1 params=0-20
ENTRY(c08_map1) { vsipl init; int p = vsx_param(), k = p / 7; switch (p % 7) { case 0: map1(Block_dist(1), k); break; case 1: map1(Block_dist(3), k); break; case 2: map1(Block_dist(4), k); break; case 3: map1(Cyclic_dist(2, 2), k); break; case 4: map1(Cyclic_dist(3, 1), k); break; case 5: map1(Cyclic_dist(3, 2), k); break; case 6: map1(Whole_dist(), k); break; } }
// @entry c08_map2 params=0-17
ENTRY(c08_map2) { vsipl init; int p = vsx_param(), k = p / 6; switch (p % 6) { case 0: map2<Block_dist, Block_dist, row2_type>(Block_dist(2), Block_dist(3), k); break; case 1: map2<Block_dist, Cyclic_dist, col2_type>(Block_dist(3), Cyclic_dist(2, 1), k); break; case 2: map2<Cyclic_dist, Block_dist, row2_type>(Cyclic_dist(2, 2), Block_dist(2), k); break; case 3: map2<Cyclic_dist, Cyclic_dist, row2_type>(Cyclic_dist(2, 1), Cyclic_dist(3, 1), k); break; case 4: map2<Whole_dist, Cyclic_dist, col2_type>(Whole_dist(), Cyclic_dist(2, 3), k); break; case 5: map2<Block_dist, Whole_dist, row2_type>(Block_dist(4), Whole_dist(), k); break; } }
// @entry c08_map3 params=0-11
ENTRY(c08_map3) { vsipl init; int p = vsx_param(), k = p / 4; switch (p % 4) { case 0: map3(Block_dist(2), Block_dist(2), Block_dist(2), k); break; case 1: map3(Cyclic_dist(2, 1), Block_dist(3), Whole_dist(), k); break; case 2: map3(Whole_dist(), Cyclic_dist(2, 2), Block_dist(2), k); break; case 3: map3(Block_dist(3), Whole_dist(), Cyclic_dist(2, 1), k); break; } }
// equality of maps, replicated and local maps
// @entry c08_misc params=0-1
ENTRY(c08_misc) { vsipl init; if (vsx_param() == 0) { length_type a = len("a", 1, 3), b = len("b", 1, 3), c = len("c", 1, 2), d = len("d", 1, 2); Vector<processor_type> pa = pview(procs(a, 0)), pb = pview(procs(b, 0)); Map<Cyclic_dist> x(pa, Cyclic_dist(a, c)), y(pb, Cyclic_dist(b, d)); CHECK((x == y) == ((a == b) & (c == d)), "maps are equal exactly when they distribute alike"); Map<Cyclic_dist> z(pview(procs(a, 1)), Cyclic_dist(a, c)); CHECK((x == z) == (a == 1), "maps over differently ordered processors differ"); y = x; CHECK(x == y, "an assigned map equals the original"); CHECK(x.distribution(0) == cyclic, "a map reports its distributions"); CHECK(x.cyclic_contiguity(0) == c, "a map reports its contiguity"); CHECK((x.distribution(1) == vsip::block) & (x.num_subblocks(1) == 1) & (x.cyclic_contiguity(1) == 0), "unspecified dimensions are not distributed"); }
  else { length_type n = len("n", 1, 4); Replicated_map<1> m(pview(procs(n, 1))); Vector<float, Dense<1, float, row1_type, Replicated_map<1> > > v(5, m); CHECK(v.block().map().num_subblocks() == 1, "a replicated map has one subblock"); CHECK(v.block().map().num_processors() == n, "a replicated map is held by all its processors"); for (index_type p = 0; p < n; ++p) CHECK(v.block().map().subblock(p) == 0, "every processor of a replicated map holds the subblock"); CHECK(v.block().map().subblock(n) == no_subblock, "other processors hold nothing"); CHECK(v.local().size() == 5, "every processor of a replicated map holds all elements"); CHECK(v.block().map().processor_end(0) - v.block().map().processor_begin(0) == (long)n, "every processor of a replicated map holds the subblock"); } }
