// C23 (engine B): transform in all its forms
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
using mc::F_SEQ;
typedef std::function<int(int)> U1; typedef std::function<int(int,int)> U2; typedef std::function<int(int,int,int)> U3;
template<class Cat> static void tr1_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n); std::iota(v.begin(),v.end(),1); Dst d(n+2); int form=mc::choose(3); U1 f=[](int i){ return i*3; }; std::vector<int> want; for(int x:v) want.push_back(x*3); CIt<int,Cat> r;
  switch(form){ case 0: r=seq_ok([&]{ return ba::parallel_transform(CB(v),CE(v),d.it<Cat>(),f,c); }); break; case 1: r=seq_ok([&]{ return ba::parallel_transform(v,d.it<Cat>(),f,c); }); break;
   default: r=seq_ok([&]{ return ba::parallel_transform(CB(v),CE(v),CB(v),f,c); }); MC_ASSERT(r.i==n,"in-place transform of %d elements cutoff %ld returned position %ld",n,c,r.i); MC_ASSERT(v==want,"in-place transform gave %s",show(v).c_str()); return; }
  MC_ASSERT(r.i==n,"transform form %d of %d elements cutoff %ld returned position %ld",form,n,c,r.i); d.expect(want,"transform",CTX); }
MC_SCENARIO(transform_1,2,3,F_SEQ){ BOTH(tr1_,7); }
template<class Cat> static void tr2_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n),w(n),u(n); std::iota(v.begin(),v.end(),1); for(int i=0;i<n;i++) w[i]=(i+1)*100,u[i]=(i+1)*10000; Dst d(n+2); int form=mc::choose(4); U2 f=[](int i,int j){ return i+j; }; U3 g=[](int i,int j,int k){ return i+j+k; }; std::vector<int> want; CIt<int,Cat> r;
  for(int i=0;i<n;i++) want.push_back((i+1)*(form<2?101:10101));
  switch(form){ case 0: r=seq_ok([&]{ return ba::parallel_transform(CB(v),CE(v),CB(w),d.it<Cat>(),f,c); }); break; case 1: r=seq_ok([&]{ return ba::parallel_transform(v,w,d.it<Cat>(),f,c); }); break;
   case 2: r=seq_ok([&]{ return ba::parallel_transform<CIt<int,Cat>,U3,BOOST_ASYNCHRONOUS_DEFAULT_JOB,CIt<int,Cat>,CIt<int,Cat>,CIt<int,Cat>>(d.it<Cat>(),g,CB(v),CE(v),CB(w),CB(u),c); }); break;
   default: r=seq_ok([&]{ return ba::parallel_transform<CIt<int,Cat>,U3,BOOST_ASYNCHRONOUS_DEFAULT_JOB,std::vector<int>,std::vector<int>,std::vector<int>>(d.it<Cat>(),g,v,w,u,c); }); }
  MC_ASSERT(r.i==n,"transform (several inputs) form %d of %d elements cutoff %ld returned position %ld",form,n,c,r.i); d.expect(want,"transform (several inputs)",CTX); }
MC_SCENARIO(transform_n,2,3,F_SEQ){ tr2_<RA>(7); }
template<class Cat> static void fill_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n+2,-7); CIt<int,Cat> b(v.data(),1,n+1,1), e(v.data(),1,n+1,n+1); int form=mc::choose(3); std::vector<int> want(n+2,-7);
  switch(form){ case 0: for(int i=1;i<=n;i++) want[i]=5; seq_ok([&]{ return ba::parallel_fill(b,e,5,c); }); break;
   case 1: { for(int i=1;i<=n;i++) want[i]=6; int calls=0; std::function<int()> g=[&]{ calls++; return 6; }; seq_ok([&]{ return ba::parallel_generate(b,e,g,c); }); MC_ASSERT(calls==n,"generate of %d elements cutoff %ld called the generator %d times",n,c,calls); break; }
   default: for(int i=1;i<=n;i++) want[i]=10+i-1; seq_ok([&]{ return ba::parallel_iota(b,e,10,c); }); }
  MC_ASSERT(v==want,"%s of %d elements cutoff %ld gave %s",form==0?"fill":form==1?"generate":"iota",n,c,show(v).c_str()); }
MC_SCENARIO(fill_generate_iota,2,3,F_SEQ){ BOTH(fill_,8); }
MC_SCENARIO(fill_ranges,1,2,F_SEQ){ int n=mc::choose(5); long c=seq_cut(n); int form=mc::choose(9); std::vector<int> v(n,-7), want(n,5), got; std::function<int()> g=[]{ return 5; }; auto const& cv=v;
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_fill(cv,5,c); }); got=v; break; case 1: got=seq_ok([&]{ return ba::parallel_fill(std::vector<int>(v),5,c); }); break; case 2: case 3: got=seq_ok([&]{ return ba::parallel_fill(cont_of(v,form-2),5,c); }); break;
   case 4: seq_ok([&]{ return ba::parallel_generate(cv,g,c); }); got=v; break; case 5: got=seq_ok([&]{ return ba::parallel_generate(std::vector<int>(v),g,c); }); break; case 6: case 7: got=seq_ok([&]{ return ba::parallel_generate(cont_of(v,form-6),g,c); }); break;
   default: got=seq_ok([&]{ return ba::parallel_iota(std::vector<int>(v),5,c); }); std::iota(want.begin(),want.end(),5); }
  MC_ASSERT(got==want,"fill/generate/iota form %d of %d elements cutoff %ld gave %s",form,n,c,show(got).c_str()); }
