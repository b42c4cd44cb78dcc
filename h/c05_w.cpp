// @property C05
// @bounds sub-matrices of up to 3x3 elements at any offset (0 or 1) of parents that have 0 to 2 rows and 0 to 3 columns more, for the destination and the source independently, both dimension orders, real and complex (interleaved and split); every element symbolic
#include "cp.h"
static Domain<2> wd(sz s, index_type a, index_type b) { return Domain<2>(Domain<1>(a, 1, s.m), Domain<1>(b, 1, s.n)); }
template <typename MD, typename MS> void win(sz s) { length_type pc = pick("pc", 0, 3), qc = pick("qc", 0, 3); index_type a = pick("a", 0, 1), b = pc ? 1 : 0, d = qc / 2;
  copies([=] { return MD(s.m + 1, s.n + pc); }, [=](auto w) { return w(wd(s, a, b)); }, [=] { return MS(s.m + 1, s.n + qc); }, [=](auto w) { return w(wd(s, 1 - a, d)); }); }
template <typename MD, typename MS> void winT(sz s) { length_type pc = pick("pc", 0, 3), qc = pick("qc", 0, 3); index_type a = pick("a", 0, 1), b = pc ? 1 : 0, d = qc / 2;
  copies([=] { return MD(s.n + pc, s.m + 1); }, [=](auto w) { return w(Domain<2>(Domain<1>(b, 1, s.n), Domain<1>(a, 1, s.m))).transpose(); }, [=] { return MS(s.m + 1, s.n + qc); }, [=](auto w) { return w(wd(s, 1 - a, d)); }); }
// @entry c05_win params=0-9
ENTRY(c05_win) { vsipl init; int p = vsx_param(); sz s = p < 5 ? sz{ len("m", 1, 3), len("n", 1, 3) } : sz{ len("m", 2, 3), len("n", 1, 2) }; switch (p) {
  case 0: win<Matrix<float, DR>, Matrix<float, DR> >(s); break; case 1: win<Matrix<float, DC>, Matrix<float, DC> >(s); break; case 2: win<Matrix<float, DR>, Matrix<float, DC> >(s); break; case 3: win<Matrix<float, DC>, Matrix<float, DR> >(s); break;
  case 4: winT<Matrix<float, DC>, Matrix<float, DR> >(s); break; case 5: win<Matrix<cf, CR>, Matrix<cf, CR> >(s); break; case 6: win<Matrix<cf, SPR>, Matrix<cf, SPR> >(s); break; case 7: winT<Matrix<cf, CC>, Matrix<cf, CC> >(s); break;
  case 8: win<Matrix<float, SR>, Matrix<float, DR> >(s); break; case 9: winT<Matrix<float, DR>, Matrix<float, SC> >(s); break; } }
// wide rows (the kernels may treat whole vector registers specially)
template <typename MD, typename MS> void wide(bool t) { length_type m = len("m", 1, 3), n = pick("n", 4, 18), pc = pick("pc", 0, 1), qc = pick("qc", 0, 1) * pick("f", 1, 3); sz s = { m, n }; if (t) s = { n, m };
  copies([=] { return MD(s.m + (t ? pc : 0), s.n + (t ? 0 : pc)); }, [=](auto w) { return w(wd(s, 0, 0)); }, [=] { return MS(s.m + (t ? qc : 0), s.n + (t ? 0 : qc)); }, [=](auto w) { return w(wd(s, 0, 0)); }); }
// @entry c05_wide params=0-5
ENTRY(c05_wide) { vsipl init; switch (vsx_param()) { case 0: wide<Matrix<float, DR>, Matrix<float, DR> >(false); break; case 1: wide<Matrix<float, DC>, Matrix<float, DC> >(true); break; case 2: wide<Matrix<float, DR>, Matrix<float, DC> >(false); break; case 3: wide<Matrix<float, DC>, Matrix<float, DR> >(false); break; case 4: wide<Matrix<cf, CR>, Matrix<cf, CR> >(false); break; case 5: wide<Matrix<cf, SPC>, Matrix<cf, SPC> >(true); break; } }
