#include "sortel.h"
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
template<class T> static void inpl(int N_){ auto in=seq_in(0,N_,3); long c=seq_cut(in.size()); int form=mc::choose(5), st=mc::choose(2); auto f=less_of<T>(); LiveCheck<T> lc; const char*what= st?"parallel_stable_sort_inplace":"parallel_sort_inplace"; std::string ctx=SCTX+" form "+std::to_string(form);
  { auto v=els<T>(in); std::vector<T> got; CIt<T> b(v.data(),0,v.size(),0),e(v.data(),0,v.size(),v.size());
    switch(form){ case 0: if(st) seq_ok([&]{ return ba::parallel_stable_sort_inplace(b,e,f,c); }); else seq_ok([&]{ return ba::parallel_sort_inplace(b,e,f,c); }); got=std::move(v); break;
    case 1: if(st) seq_ok([&]{ return ba::parallel_stable_sort_inplace(v,f,c); }); else seq_ok([&]{ return ba::parallel_sort_inplace(v,f,c); }); got=std::move(v); break;
    case 2: got= st? seq_ok([&]{ return ba::parallel_stable_sort_move_inplace(els<T>(in),f,c); }) : seq_ok([&]{ return ba::parallel_sort_move_inplace(els<T>(in),f,c); }); break;
    default: got= st? seq_ok([&]{ return ba::parallel_stable_sort_inplace(cont_of(els<T>(in),form-3),f,c); }) : seq_ok([&]{ return ba::parallel_sort_inplace(cont_of(els<T>(in),form-3),f,c); }); }
    check_sorted(got,in,st,what,ctx); } lc.done(what,ctx); }
MC_SCENARIO(inplace_trivial,1,2,F_SEQ){ inpl<E>(5); }
MC_SCENARIO(inplace_nontrivial,1,2,F_SEQ){ inpl<N>(5); }
