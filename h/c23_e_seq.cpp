// C23 (engine B): grouping of sorted ranges
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
using mc::F_SEQ;
static std::vector<int> sorted_in(int N){ int n=mc::choose(N+1); std::vector<int> v(n); int x=0; for(int i=0;i<n;i++){ if(i&&mc::choose(2)) x++; v[i]=x; } return v; }
static P2 lt=[](int const& a,int const& b){ return a<b; };
template<class Cat> static void gfor_(int N){ auto v=sorted_in(N); int n=v.size(); long c=seq_cut(n); int form=mc::choose(2); std::vector<int> seen(n,0); auto v0=v;
  if(form==0) seq_ok([&]{ return ba::parallel_grouped_for(CB(v),CE(v),lt,std::function<void(int&)>([&](int& x){ seen.at(&x-v.data())++; }),c); });
  else seq_ok([&]{ return ba::parallel_grouped_for(CB(v),CE(v),lt,std::function<void(CIt<int,Cat>,CIt<int,Cat>)>([&](CIt<int,Cat> a,CIt<int,Cat> b){ if(a!=b){ MC_ASSERT(a.i==0||v[a.i-1]!=v[a.i],"a group of %s was split at %ld (cutoff %ld)",show(v).c_str(),a.i,c); MC_ASSERT(b.i==n||v[b.i-1]!=v[b.i],"a group of %s was split at %ld (cutoff %ld)",show(v).c_str(),b.i,c); } for(;a!=b;++a) seen.at(a.i)++; }),c); });
  for(int x:seen) MC_ASSERT(x==1,"grouped_for form %d of %s cutoff %ld visited an element %d times",form,show(v).c_str(),c,x); }
MC_SCENARIO(grouped_for,1,2,F_SEQ){ BOTH(gfor_,6); }
template<class Cat> static void gtr_(int N){ auto v=sorted_in(N); int n=v.size(); long c=seq_cut(n); int form=mc::choose(2); Dst d(n+1); std::vector<int> want; for(int x:v) want.push_back(x*10+1); typedef CIt<int,Cat> I; I r;
  if(form==0) r=seq_ok([&]{ return ba::parallel_grouped_transform(CB(v),CE(v),d.it<Cat>(),lt,std::function<int(int)>([](int x){ return x*10+1; }),c); });
  else r=seq_ok([&]{ return ba::parallel_grouped_transform(CB(v),CE(v),d.it<Cat>(),lt,std::function<void(I,I,I)>([&](I a,I b,I o){ if(a!=b){ MC_ASSERT(a.i==0||v[a.i-1]!=v[a.i],"a group was split"); MC_ASSERT(b.i==n||v[b.i-1]!=v[b.i],"a group was split"); } for(;a!=b;++a) *o++=*a*10+1; }),c); });
  d.expect(want,"grouped_transform",CTX); MC_ASSERT(r.i==n,"grouped_transform form %d of %s returned position %ld",form,CTX.c_str(),r.i); }
MC_SCENARIO(grouped_transform,1,2,F_SEQ){ gtr_<RA>(6); }
MC_SCENARIO(group_by,1,2,F_SEQ){ auto v=sorted_in(5); long c=seq_cut(v.size()); int form=mc::choose(5); auto w=v; auto const& cw=w; typedef std::vector<std::vector<int>> VV; VV want; for(int x:v){ if(want.empty()||want.back()[0]!=x) want.push_back({}); want.back().push_back(x); } VV got;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_group_by<VV>(cb<RA>(w),ce<RA>(w),lt,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_group_by<VV>(w,lt,c); }); break; case 2: got=seq_ok([&]{ return ba::parallel_group_by<VV>(std::vector<int>(v),lt,c); }); break; default: got=seq_ok([&]{ return ba::parallel_group_by<VV>(cont_of(v,form-3),lt,c); }); }
  MC_ASSERT(got==want,"group_by form %d of %s found %zu groups, expected %zu (or their contents differ)",form,CTX.c_str(),got.size(),want.size()); }
