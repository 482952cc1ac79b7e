// C22 (engine B): comparisons of two ranges, order predicates
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
using mc::F_SEQ;
template<class Cat> static void adj_(int N){ auto v=seq_in(0,N,2); long c=seq_cut(v.size()); int form=mc::choose(3); long got,want;
  switch(form){ case 0: want=std::adjacent_find(v.begin(),v.end())-v.begin(); got=seq_ok([&]{ return ba::parallel_adjacent_find(CB(v),CE(v),c); }).i; break;
   case 1: want=std::adjacent_find(v.begin(),v.end(),[](int a,int b){return a==1&&b==0;})-v.begin(); got=seq_ok([&]{ return ba::parallel_adjacent_find(CB(v),CE(v),P2([](int a,int b){return a==1&&b==0;}),c); }).i; break;
   default: want=std::adjacent_find(v.begin(),v.end(),std::greater<int>())-v.begin(); got=seq_ok([&]{ return ba::parallel_adjacent_find(CB(v),CE(v),P2([](int a,int b){return a>b;}),c); }).i; }
  MC_ASSERT(got==want,"adjacent_find form %d of %s cutoff %ld gave position %ld, expected %ld",form,show(v).c_str(),c,got,want); }
MC_SCENARIO(adjacent_find,1,2,F_SEQ){ BOTH(adj_,6); }
template<class Cat> static void cmp2_(int N){ auto v=seq_in(0,N,2); auto w=v; for(auto&x:w) x=mc::choose(2); for(int k=mc::choose(2);k>0;k--) w.push_back(1); long c=seq_cut(v.size()); int form=mc::choose(4);
  P2 le=[](int a,int b){ return a<=b; };
  if(form<2){ bool want= form? std::equal(v.begin(),v.end(),w.begin(),le):std::equal(v.begin(),v.end(),w.begin());
    bool got= form? seq_ok([&]{ return ba::parallel_equal(CB(v),CE(v),CB(w),le,c); }) : seq_ok([&]{ return ba::parallel_equal(CB(v),CE(v),CB(w),c); });
    MC_ASSERT(got==want,"equal form %d of %s %s cutoff %ld gave %d",form,show(v).c_str(),show(w).c_str(),c,got); return; }
  auto want= form==3? std::mismatch(v.begin(),v.end(),w.begin(),le):std::mismatch(v.begin(),v.end(),w.begin());
  auto got= form==3? seq_ok([&]{ return ba::parallel_mismatch(CB(v),CE(v),CB(w),le,c); }) : seq_ok([&]{ return ba::parallel_mismatch(CB(v),CE(v),CB(w),c); });
  MC_ASSERT(got.first.i==want.first-v.begin() && got.second.i==want.second-w.begin(),"mismatch form %d of %s %s cutoff %ld gave (%ld,%ld)",form,show(v).c_str(),show(w).c_str(),c,got.first.i,got.second.i); }
MC_SCENARIO(equal_mismatch,1,2,F_SEQ){ BOTH(cmp2_,4); }
template<class Cat> static void lex_(int N){ auto v=seq_in(0,N,2), w=seq_in(0,N,2); long c=seq_cut(v.size()); int form=mc::choose(2); P2 gt=[](int a,int b){ return a>b; };
  bool want= form? std::lexicographical_compare(v.begin(),v.end(),w.begin(),w.end(),gt): std::lexicographical_compare(v.begin(),v.end(),w.begin(),w.end());
  bool got= form? seq_ok([&]{ return ba::parallel_lexicographical_compare(CB(v),CE(v),CB(w),CE(w),gt,c); }) : seq_ok([&]{ return ba::parallel_lexicographical_compare(CB(v),CE(v),CB(w),CE(w),c); });
  MC_ASSERT(got==want,"lexicographical_compare form %d of %s %s cutoff %ld gave %d",form,show(v).c_str(),show(w).c_str(),c,got); }
MC_SCENARIO(lexicographical_compare,1,2,F_SEQ){ BOTH(lex_,4); }
template<class Cat> static void part_(int N){ auto v=seq_in(0,N,2); long c=seq_cut(v.size()); bool want=std::is_partitioned(v.begin(),v.end(),[](int x){return x==1;});
  bool got=seq_ok([&]{ return ba::parallel_is_partitioned(CB(v),CE(v),P1([](int const& x){return x==1;}),c); });
  MC_ASSERT(got==want,"is_partitioned of %s cutoff %ld gave %d",show(v).c_str(),c,got); }
MC_SCENARIO(is_partitioned,1,2,F_SEQ){ BOTH(part_,7); }
template<class Cat> static void sorted_(int N){ auto v=seq_in(0,N,3); long c=seq_cut(v.size()); int form=mc::choose(2); P2 lt=[](int const& a,int const& b){ return a<b; }; P2 gt=[](int const& a,int const& b){ return a>b; };
  bool want= form? std::is_sorted(v.begin(),v.end(),gt): std::is_sorted(v.begin(),v.end());
  bool got= form? seq_ok([&]{ return ba::parallel_is_sorted(CB(v),CE(v),gt,c); }) : seq_ok([&]{ return ba::parallel_is_sorted(CB(v),CE(v),lt,c); });
  MC_ASSERT(got==want,"is_sorted form %d of %s cutoff %ld gave %d",form,show(v).c_str(),c,got);
  bool rgot=seq_ok([&]{ return ba::parallel_is_reverse_sorted(CB(v),CE(v),lt,c); }), rwant=std::is_sorted(v.rbegin(),v.rend());
  MC_ASSERT(rgot==rwant,"is_reverse_sorted of %s cutoff %ld gave %d",show(v).c_str(),c,rgot); }
MC_SCENARIO(is_sorted,1,2,F_SEQ){ if(mc::choose(2)) sorted_<RA>(5); else sorted_<BI>(5); }
