#include "sortel.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
// range forms: moved range, moved range version 2, continuation
template<class T> static void ranges(int N_){ auto in=seq_in(0,N_,3); long c=seq_cut(in.size()); int form=mc::choose(4), st=mc::choose(2); auto f=less_of<T>(); LiveCheck<T> lc; const char*what= st?"parallel_stable_sort":"parallel_sort"; std::string ctx=SCTX+" form "+std::to_string(form);
  { std::vector<T> got; switch(form){ case 0: got= st? seq_ok([&]{ return ba::parallel_stable_sort(els<T>(in),f,c); }) : seq_ok([&]{ return ba::parallel_sort(els<T>(in),f,c); }); break;
    case 1: got= st? seq_ok([&]{ return ba::parallel_stable_sort2(els<T>(in),f,c); }) : seq_ok([&]{ return ba::parallel_sort2(els<T>(in),f,c); }); break;
    default: got= st? seq_ok([&]{ return ba::parallel_stable_sort(cont_of(els<T>(in),form-2),f,c); }) : seq_ok([&]{ return ba::parallel_sort(cont_of(els<T>(in),form-2),f,c); }); }
    check_sorted(got,in,st,what,ctx); } lc.done(what,ctx); }
MC_SCENARIO(sort_ranges,1,2,F_SEQ){ ranges<E>(5); }
MC_SCENARIO(sort_ranges_nontrivial,1,2,F_SEQ){ ranges<N>(5); }
