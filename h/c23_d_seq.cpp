// C23 (engine B): partitions, unique
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
using mc::F_SEQ;
static std::vector<int> keyed(int N){ auto k=seq_in(0,N,2); for(size_t i=0;i<k.size();i++) k[i]+=10*(i+1); return k; } // unique elements with a 0/1 key
static P1 one=[](int const& x){ return x%10==1; };
// the block size of parallel_partition is 1000: ranges around its multiples, filled in segments
static std::vector<int> blocks(int maxk){ static const int L[]={999,1000,1001,1999,2001,2500,3001,4000}; int n=L[mc::choose(maxk)]; int seg=n/4+1; std::vector<int> v(n); int kind=0; for(int i=0;i<n;i++){ if(i%seg==0) kind=mc::choose(4); v[i]=10*(i+1)+(kind==0?0:kind==1?1:kind==2?i%2:(i%7==3)); } return v; }
static void check_part(std::vector<int> v,std::vector<int> got,long pos,const char*what){ long k=0; for(int x:v) k+=one(x); MC_ASSERT(pos==k,"%s of %zu elements returned position %ld, but %ld elements satisfy the predicate",what,v.size(),pos,k);
  for(size_t i=0;i<got.size();i++) MC_ASSERT(one(got[i])==((long)i<k),"%s of %zu elements: element %zu is on the wrong side of %ld",what,v.size(),i,k); std::sort(v.begin(),v.end()); std::sort(got.begin(),got.end()); MC_ASSERT(v==got,"%s of %zu elements is not a permutation of its input",what,v.size()); }
static void part_(std::vector<int> v,int maxform){ int form=mc::choose(maxform), th=1+mc::choose(4); auto w=v;
  if(form==0){ auto r=seq_ok([&]{ return ba::parallel_partition(CIt<int>(w.data(),0,w.size(),0),CIt<int>(w.data(),0,w.size(),w.size()),one,th); }); check_part(v,w,r.i,"partition"); }
  else if(form==1){ auto r=seq_ok([&]{ return ba::parallel_partition(std::vector<int>(v),one,th); }); check_part(v,r.first,r.second-r.first.begin(),"partition (moved range)"); }
  else { auto r=seq_ok([&]{ return ba::parallel_partition(cont_of(v,form-2),one,th); }); check_part(v,r.first,r.second-r.first.begin(),"partition (continuation)"); } }
MC_SCENARIO(partition_small,1,2,F_SEQ){ part_(keyed(6),4); }
MC_SCENARIO(partition_blocks,0,1,F_SEQ){ part_(blocks(5),1); }
MC_SCENARIO(partition_blocks_more,-1,2,F_SEQ){ part_(blocks(8),2); }
template<class Cat> static void stable_(int N){ auto v=keyed(N); int n=v.size(); long c=seq_cut(n); auto v0=v; std::vector<int> want=v; std::stable_partition(want.begin(),want.end(),one); long k=std::count_if(v.begin(),v.end(),one); Dst d(n);
  auto r=seq_ok([&]{ return ba::parallel_stable_partition(CB(v),CE(v),d.it<Cat>(),one,c); }); d.expect(want,"stable_partition",CTX); MC_ASSERT(r.i==k,"stable_partition of %s returned position %ld, expected %ld",CTX.c_str(),r.i,k); }
MC_SCENARIO(stable_partition,1,2,F_SEQ){ BOTH(stable_,6); }
MC_SCENARIO(stable_partition_ranges,1,2,F_SEQ){ auto v=keyed(5); long c=seq_cut(v.size()); std::vector<int> want=v; std::stable_partition(want.begin(),want.end(),one); long k=std::count_if(v.begin(),v.end(),one); int form=mc::choose(3);
  auto chk=[&](auto r){ MC_ASSERT(r.first==want,"stable_partition form %d of %s gave %s",form,CTX.c_str(),show(r.first).c_str()); MC_ASSERT(r.second-r.first.begin()==k,"stable_partition form %d of %s returned position %ld, expected %ld",form,CTX.c_str(),(long)(r.second-r.first.begin()),k); };
  if(form==0) chk(seq_ok([&]{ return ba::parallel_stable_partition(std::vector<int>(v),one,c); })); else chk(seq_ok([&]{ return ba::parallel_stable_partition(cont_of(v,form-1),one,c); })); }
template<class Cat> static void pcopy_(int N){ auto v=keyed(N); int n=v.size(); long c=seq_cut(n); auto v0=v; std::vector<int> t,f; for(int x:v) (one(x)?t:f).push_back(x); Dst dt(t.size()+1), df(f.size()+1);
  auto r=seq_ok([&]{ return ba::parallel_partition_copy(CB(v),CE(v),dt.it<Cat>(),df.it<Cat>(),one,c); }); MC_ASSERT(v==v0,"the source changed"); dt.expect(t,"partition_copy (true part)",CTX); df.expect(f,"partition_copy (false part)",CTX);
  MC_ASSERT(r.first.i==(long)t.size()&&r.second.i==(long)f.size(),"partition_copy of %s returned positions %ld %ld, expected %zu %zu",CTX.c_str(),r.first.i,r.second.i,t.size(),f.size()); }
MC_SCENARIO(partition_copy,1,2,F_SEQ){ BOTH(pcopy_,6); }
template<class Cat> static void unique_(int N){ auto v=seq_in(0,N,2); int n=v.size(); long c=seq_cut(n); auto want=v; for(auto&x:want) x=x; want.erase(std::unique(want.begin(),want.end()),want.end()); P2 eq=[](int const& a,int const& b){ return a==b; }; auto v0=v;
  auto r=seq_ok([&]{ return ba::parallel_unique(CB(v),CE(v),eq,c); }); MC_ASSERT(r.i==(long)want.size(),"unique of %s cutoff %ld returned position %ld, expected %zu",show(v0).c_str(),c,r.i,want.size()); MC_ASSERT(std::equal(want.begin(),want.end(),v.begin()),"unique of %s cutoff %ld gave %s",show(v0).c_str(),c,show(v).c_str()); }
MC_SCENARIO(unique,1,2,F_SEQ){ BOTH(unique_,8); }
MC_SCENARIO(unique_first_kept,1,2,F_SEQ){ auto v=keyed(7); long c=seq_cut(v.size()); auto want=v; P2 eq=[](int const& a,int const& b){ return a%10==b%10; }; want.erase(std::unique(want.begin(),want.end(),[](int a,int b){return a%10==b%10;}),want.end()); auto v0=v; auto r=seq_ok([&]{ return ba::parallel_unique(cb<RA>(v),ce<RA>(v),eq,c); });
  MC_ASSERT(r.i==(long)want.size()&&std::equal(want.begin(),want.end(),v.begin()),"unique of %s cutoff %ld gave %s and position %ld, expected %s",show(v0).c_str(),c,show(v).c_str(),r.i,show(want).c_str()); }
MC_SCENARIO(unique_cont,1,2,F_SEQ){ auto v=seq_in(0,6,2); long c=seq_cut(v.size()); auto want=v; want.erase(std::unique(want.begin(),want.end()),want.end()); P2 eq=[](int const& a,int const& b){ return a==b; }; int d=mc::choose(2); auto got=seq_ok([&]{ return ba::parallel_unique(cont_of(v,d),eq,c); }); MC_ASSERT(got==want,"unique (continuation) of %s cutoff %ld gave %s",show(v).c_str(),c,show(got).c_str()); }
