// C23 (engine B): replace, replace_copy, reverse, swap_ranges
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
using mc::F_SEQ;
template<class Cat> static void replace_(int N){ auto v=seq_in(0,N,3); int n=v.size(); long c=seq_cut(n); int form=mc::choose(4); P1 f=[](int const& x){ return x==1; }; auto want=v; std::replace(want.begin(),want.end(),1,9); auto v0=v;
  if(form<2){ if(form) seq_ok([&]{ return ba::parallel_replace(CB(v),CE(v),1,9,c); }); else seq_ok([&]{ return ba::parallel_replace_if(CB(v),CE(v),f,9,c); });
    MC_ASSERT(v==want,"replace form %d of %s cutoff %ld gave %s",form,show(v0).c_str(),c,show(v).c_str()); return; }
  Dst d(n+1); auto r= form==3? seq_ok([&]{ return ba::parallel_replace_copy(CB(v),CE(v),d.it<Cat>(),1,9,c); }) : seq_ok([&]{ return ba::parallel_replace_copy_if(CB(v),CE(v),d.it<Cat>(),f,9,c); });
  d.expect(want,"replace_copy",CTX); MC_ASSERT(v==v0,"the source changed"); MC_ASSERT(r.i==n,"replace_copy form %d of %s returned position %ld",form,CTX.c_str(),r.i); }
MC_SCENARIO(replace,1,2,F_SEQ){ BOTH(replace_,4); }
MC_SCENARIO(replace_ranges,1,2,F_SEQ){ auto v=seq_in(0,3,3); int n=v.size(); long c=seq_cut(n); int form=mc::choose(10); P1 f=[](int const& x){ return x==1; }; auto want=v; std::replace(want.begin(),want.end(),1,9); std::vector<int> got; int d=form&1;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_replace(std::vector<int>(v),1,9,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_replace_if(std::vector<int>(v),f,9,c); }); break;
   case 2: case 3: got=seq_ok([&]{ return ba::parallel_replace(cont_of(v,d),1,9,c); }); break; case 4: case 5: got=seq_ok([&]{ return ba::parallel_replace_if(cont_of(v,d),f,9,c); }); break;
   default: { Dst o(n+1); auto r= form<8? seq_ok([&]{ return ba::parallel_replace_copy(cont_of(v,d),o.it<RA>(),1,9,c); }) : seq_ok([&]{ return ba::parallel_replace_copy_if(cont_of(v,d),o.it<RA>(),f,9,c); }); o.expect(want,"replace_copy (continuation)",CTX); MC_ASSERT(r.i==n,"replace_copy (continuation) returned position %ld",r.i); return; } }
  MC_ASSERT(got==want,"replace form %d of %s cutoff %ld gave %s",form,show(v).c_str(),c,show(got).c_str()); }
template<class Cat> static void reverse_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n); std::iota(v.begin(),v.end(),1); std::vector<int> want(v.rbegin(),v.rend());
  seq_ok([&]{ return ba::parallel_reverse(CB(v),CE(v),c); }); MC_ASSERT(v==want,"reverse of %d elements cutoff %ld gave %s",n,c,show(v).c_str()); }
MC_SCENARIO(reverse,3,4,F_SEQ){ if(mc::choose(2)) reverse_<RA>(10); else reverse_<BI>(10); }
MC_SCENARIO(reverse_ranges,1,2,F_SEQ){ int n=mc::choose(7); long c=seq_cut(n); std::vector<int> v(n); std::iota(v.begin(),v.end(),1); std::vector<int> want(v.rbegin(),v.rend()), got; int form=mc::choose(3);
  if(form==0) got=seq_ok([&]{ return ba::parallel_reverse(std::vector<int>(v),c); }); else got=seq_ok([&]{ return ba::parallel_reverse(cont_of(v,form-1),c); });
  MC_ASSERT(got==want,"reverse form %d of %d elements cutoff %ld gave %s",form,n,c,show(got).c_str()); }
template<class Cat> static void swap_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n), w(n+2,-7); std::iota(v.begin(),v.end(),1); for(int i=0;i<n;i++) w[i]=100+i; auto v0=v, w0=w;
  auto r=seq_ok([&]{ return ba::parallel_swap_ranges(CB(v),CE(v),CB(w),c); }); 
  for(int i=0;i<n;i++) MC_ASSERT(v[i]==w0[i]&&w[i]==v0[i],"swap_ranges of %d elements cutoff %ld: %s %s",n,c,show(v).c_str(),show(w).c_str()); MC_ASSERT(w[n]==-7&&w[n+1]==-7,"swap_ranges touched elements behind the range"); MC_ASSERT(r.i==n,"swap_ranges of %d elements cutoff %ld returned position %ld",n,c,r.i); }
MC_SCENARIO(swap_ranges,2,4,F_SEQ){ BOTH(swap_,8); }
