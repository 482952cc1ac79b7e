#include "sortel.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
// iterator forms: parallel_sort, parallel_stable_sort, parallel_quicksort (thread_num 1..2)
template<class T> static void sort_it(int N_){ auto in=seq_in(0,N_,3); long c=seq_cut(in.size()); int form=mc::choose(4); auto v=els<T>(in); LiveCheck<T> lc; 
  CIt<T> b(v.data(),0,v.size(),0),e(v.data(),0,v.size(),v.size()); auto f=less_of<T>(); const char* names[]={"parallel_sort","parallel_stable_sort","parallel_quicksort (1 thread)","parallel_quicksort (2 threads)"};
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_sort(b,e,f,c); }); break; case 1: seq_ok([&]{ return ba::parallel_stable_sort(b,e,f,c); }); break; default: seq_ok([&]{ return ba::parallel_quicksort(b,e,f,c,(uint32_t)(form-1)); }); }
  check_sorted(v,in,form==1,names[form],SCTX); lc.done(names[form],SCTX); }
MC_SCENARIO(sort_trivial,1,2,F_SEQ){ sort_it<E>(5); }
MC_SCENARIO(sort_nontrivial,1,2,F_SEQ){ sort_it<N>(5); }
MC_SCENARIO(sort_6_elements,0,1,F_SEQ){ sort_it<N>(6); }
// longer inputs, two keys: more levels of splitting and merging
template<class T> static void sort_long(int lo,int hi){ auto in=seq_in(lo,hi,2); long c=1+mc::choose(3); int form=mc::choose(3); auto v=els<T>(in); LiveCheck<T> lc; CIt<T> b(v.data(),0,v.size(),0),e(v.data(),0,v.size(),v.size()); auto f=less_of<T>(); const char* names[]={"parallel_sort","parallel_stable_sort","parallel_quicksort"};
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_sort(b,e,f,c); }); break; case 1: seq_ok([&]{ return ba::parallel_stable_sort(b,e,f,c); }); break; default: seq_ok([&]{ return ba::parallel_quicksort(b,e,f,c,2); }); }
  check_sorted(v,in,form==1,names[form],SCTX); lc.done(names[form],SCTX); }
MC_SCENARIO(sort_long_trivial,0,1,F_SEQ){ sort_long<E>(7,10); }
MC_SCENARIO(sort_long_nontrivial,0,1,F_SEQ){ sort_long<N>(7,10); }
// the partition of quicksort works on blocks of at least 1000 elements: a long input built from few parameters
MC_SCENARIO(quicksort_blocks,0,0,F_SEQ){ int n=1900+mc::choose(3)*300, pat=mc::choose(6), thr=1+mc::choose(3); long c=100+mc::choose(2)*700; std::vector<int> in(n); for(int i=0;i<n;i++) switch(pat){ case 0: in[i]=(i*7919)%n; break; case 1: in[i]=i%2; break; case 2: in[i]=(i*37)%11; break; case 3: in[i]= i<n/2? i: n-i; break; case 4: in[i]= i==n/2? -1: i/3; break; default: in[i]=(n-i)/5 + (i%7==0); }
  auto v=els<E>(in); CIt<E> b(v.data(),0,v.size(),0),e(v.data(),0,v.size(),v.size()); auto f=less_of<E>(); seq_ok([&]{ return ba::parallel_quicksort(b,e,f,c,(uint32_t)thr); });
  std::string ctx=std::to_string(n)+" elements (pattern "+std::to_string(pat)+") cutoff "+std::to_string(c); std::vector<int> k; for(auto&x:v) k.push_back(x.k); auto w=in; std::sort(w.begin(),w.end()); MC_ASSERT(k==w,"parallel_quicksort of %s did not give the sorted input",ctx.c_str()); }
