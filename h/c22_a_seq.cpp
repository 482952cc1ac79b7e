// C22 (engine B): counting, predicates, for, for_each, find_all
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
using mc::F_SEQ;
static bool is1(int const& x){ return x==1; }
template<class Cat> static void count_(int N){ auto v=seq_in(0,N,3); long c=seq_cut(v.size()); int form=mc::choose(2); long want=std::count(v.begin(),v.end(),1);
  long got= form? seq_ok([&]{ return ba::parallel_count(CB(v),CE(v),1,c); }) : seq_ok([&]{ return ba::parallel_count_if(CB(v),CE(v),P1(is1),c); });
  MC_ASSERT(got==want,"count form %d of %s cutoff %ld gave %ld, expected %ld",form,show(v).c_str(),c,got,want); }
MC_SCENARIO(count_iter,1,2,F_SEQ){ BOTH(count_,5); }
MC_SCENARIO(count_ranges,1,2,F_SEQ){ auto v=seq_in(0,4,3); long c=seq_cut(v.size()); int form=mc::choose(4); long want=std::count(v.begin(),v.end(),1); P1 f=[](int const&x){return x==1;}; long got=-1; auto const& cv=v;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_count_if(cv,f,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_count_if(std::vector<int>(v),f,c); }); break;
   default: got=seq_ok([&]{ return ba::parallel_count_if(cont_of(v,form-2),f,c); }); }
  MC_ASSERT(got==want,"count form %d of %s cutoff %ld gave %ld, expected %ld",form,show(v).c_str(),c,got,want); }
template<class Cat> static void find_all_(int N){ auto v=seq_in(0,N,2); long c=seq_cut(v.size()); std::vector<std::pair<int,int>> w,want; for(size_t i=0;i<v.size();i++){ w.push_back({v[i],(int)i}); if(v[i]==1) want.push_back(w.back()); }
  auto got=seq_ok([&]{ return ba::parallel_find_all(CB(w),CE(w),(std::function<bool(std::pair<int,int> const&)>([](std::pair<int,int> const&x){return x.first==1;})),c); });
  MC_ASSERT((std::vector<std::pair<int,int>>(got.begin(),got.end())==want),"find_all of %s cutoff %ld: wrong result of %zu elements",show(v).c_str(),c,(size_t)got.size()); }
MC_SCENARIO(find_all_iter,1,2,F_SEQ){ BOTH(find_all_,6); }
MC_SCENARIO(find_all_ranges,1,2,F_SEQ){ auto v=seq_in(0,4,3); long c=seq_cut(v.size()); int form=mc::choose(4); std::vector<int> want; for(int x:v) if(x>=1) want.push_back(x); P1 f=[](int const&x){return x>=1;}; auto const& cv=v; std::vector<int> got;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_find_all(cv,f,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_find_all(std::vector<int>(v),f,c); }); break;
   default: got=seq_ok([&]{ return ba::parallel_find_all(cont_of(v,form-2),f,c); }); }
  MC_ASSERT(got==want,"find_all form %d of %s cutoff %ld gave %s",form,show(v).c_str(),c,show(got).c_str()); }
template<class Cat> static void quant_(int N){ auto v=seq_in(0,N,2); long c=seq_cut(v.size()); int form=mc::choose(3); P1 f=[](int const&x){return x==1;}; bool want,got;
  switch(form){ case 0: want=std::all_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_all_of(CB(v),CE(v),f,c); }); break;
   case 1: want=std::any_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_any_of(CB(v),CE(v),f,c); }); break;
   default: want=std::none_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_none_of(CB(v),CE(v),f,c); }); }
  MC_ASSERT(got==want,"%s of %s cutoff %ld gave %d",form==0?"all_of":form==1?"any_of":"none_of",show(v).c_str(),c,got); }
MC_SCENARIO(quantifiers_iter,1,3,F_SEQ){ BOTH(quant_,6); }
MC_SCENARIO(quantifiers_cont,1,2,F_SEQ){ auto v=seq_in(0,4,2); long c=seq_cut(v.size()); int form=mc::choose(3), d=mc::choose(2); P1 f=[](int const&x){return x==1;}; bool want,got;
  switch(form){ case 0: want=std::all_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_all_of(cont_of(v,d),f,c); }); break;
   case 1: want=std::any_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_any_of(cont_of(v,d),f,c); }); break;
   default: want=std::none_of(v.begin(),v.end(),is1); got=seq_ok([&]{ return ba::parallel_none_of(cont_of(v,d),f,c); }); }
  MC_ASSERT(got==want,"quantifier %d (continuation) of %s cutoff %ld gave %d",form,show(v).c_str(),c,got); }
template<class Cat> static void forit_(int N){ int n=mc::choose(N+1); std::vector<int> v(n,0); long c=seq_cut(n); int form=mc::choose(2);
  if(form==0) seq_ok([&]{ return ba::parallel_for(CB(v),CE(v),std::function<void(int&)>([](int& i){ i++; }),c); });
  else seq_ok([&]{ return ba::parallel_for(CB(v),CE(v),[](CIt<int,Cat> a,CIt<int,Cat> b){ for(;a!=b;++a) (*a)++; },c); });
  for(int x:v) MC_ASSERT(x==1,"parallel_for form %d of %d elements, cutoff %ld called the functor %d times for an element: %s",form,n,c,x,show(v).c_str()); }
MC_SCENARIO(for_iter,2,4,F_SEQ){ BOTH(forit_,8); }
MC_SCENARIO(for_index,2,4,F_SEQ){ int b=mc::choose(3), n=mc::choose(8); std::vector<int> v(n+b+2,0); long c=seq_cut(n); seq_ok([&]{ return ba::parallel_for((long)b,(long)(b+n),[&v](long const& i){ v.at(i)++; },c); });
  for(int i=0;i<(int)v.size();i++) MC_ASSERT(v[i]==(i>=b&&i<b+n),"parallel_for over [%d,%d) cutoff %ld called the functor %d times for index %d",b,b+n,c,v[i],i); }
MC_SCENARIO(for_ranges,1,2,F_SEQ){ auto v=seq_in(0,4,3); long c=seq_cut(v.size()); int form=mc::choose(4); std::vector<int> want; for(int x:v) want.push_back(x+10); std::function<void(int const&)> f=[](int const& i){ const_cast<int&>(i)+=10; }; std::vector<int> got;
  switch(form){ case 0: { std::vector<int> w=v; std::vector<int> const& cw=w; seq_ok([&]{ return ba::parallel_for(cw,f,c); }); got=w; break; }
   case 1: got=seq_ok([&]{ return ba::parallel_for(std::vector<int>(v),f,c); }); break; default: got=seq_ok([&]{ return ba::parallel_for(cont_of(v,form-2),f,c); }); }
  MC_ASSERT(got==want,"parallel_for form %d of %s cutoff %ld gave %s",form,show(v).c_str(),c,show(got).c_str()); }
struct Coll { std::vector<int> seen; Coll(){} void operator()(int const& i){ seen.push_back(i); } void merge(Coll const& o){ seen.insert(seen.end(),o.seen.begin(),o.seen.end()); } };
template<class Cat> static void for_each_(int N){ int n=mc::choose(N+1); std::vector<int> v(n); std::iota(v.begin(),v.end(),0); long c=seq_cut(n);
  auto got=seq_ok([&]{ return ba::parallel_for_each(CB(v),CE(v),Coll(),c); });
  MC_ASSERT(got.seen==v,"parallel_for_each of %d elements, cutoff %ld: merged functor saw %s",n,c,show(got.seen).c_str()); }
MC_SCENARIO(for_each_iter,2,4,F_SEQ){ BOTH(for_each_,8); }
