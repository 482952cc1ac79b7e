// C22 (engine B): searches for subsequences, extremum
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
using mc::F_SEQ;
// every subsequence search against its std counterpart. form 0: iterators; 1: with functor; 2,3: needle is a continuation
#define SUBSEQ(NAME,STD,ALG,N,M,A) template<class Cat> static void NAME##_(){ auto v=seq_in(0,N,A), w=seq_in(0,M,A); long c=seq_cut(v.size()); int form=mc::choose(4); P2 eq=[](int a,int b){ return a==b || (a==1&&b==0); }; P2 eq0=[](int a,int b){ return a==b; }; \
  long want= form==1? STD(v.begin(),v.end(),w.begin(),w.end(),eq)-v.begin() : STD(v.begin(),v.end(),w.begin(),w.end())-v.begin(), got; \
  switch(form){ case 0: got=seq_ok([&]{ return ba::ALG(CB(v),CE(v),CB(w),CE(w),c); }).i; break; case 1: got=seq_ok([&]{ return ba::ALG(CB(v),CE(v),CB(w),CE(w),eq,c); }).i; break; \
   default: got=seq_ok([&]{ return ba::ALG(CB(v),CE(v),cont_of(w,form-2),eq0,c); }).i; } \
  MC_ASSERT(got==want,#NAME " form %d of %s in %s cutoff %ld gave position %ld, expected %ld",form,show(w).c_str(),show(v).c_str(),c,got,want); } \
  MC_SCENARIO(NAME,1,2,F_SEQ){ BOTH(NAME##_); }
SUBSEQ(find_end,std::find_end,parallel_find_end,5,3,2)
SUBSEQ(find_first_of,std::find_first_of,parallel_find_first_of,4,2,3)
SUBSEQ(search,std::search,parallel_search,5,3,2)
template<class Cat> static void search_n_(int N){ auto v=seq_in(0,N,2); long c=seq_cut(v.size()); int form=mc::choose(2), k=mc::choose(5); P2 eq=[](int a,int b){ return a==b; };
  long want=std::search_n(v.begin(),v.end(),k,1)-v.begin(), got= form? seq_ok([&]{ return ba::parallel_search_n(CB(v),CE(v),k,1,eq,c); }).i : seq_ok([&]{ return ba::parallel_search_n(CB(v),CE(v),k,1,c); }).i;
  MC_ASSERT(got==want,"search_n form %d for %d ones in %s cutoff %ld gave position %ld, expected %ld",form,k,show(v).c_str(),c,got,want); }
MC_SCENARIO(search_n,1,2,F_SEQ){ BOTH(search_n_,6); }
template<class Cat> static void ext_(int N){ auto v=seq_in(1,N,3); long c=seq_cut(v.size()); P2 lt=[](int const& a,int const& b){ return a<b; }; P2 gt=[](int const& a,int const& b){ return a>b; };
  int got=seq_ok([&]{ return ba::parallel_extremum(CB(v),CE(v),lt,c); }), want=*std::min_element(v.begin(),v.end()); MC_ASSERT(got==want,"minimum of %s cutoff %ld gave %d",show(v).c_str(),c,got);
  got=seq_ok([&]{ return ba::parallel_extremum(CB(v),CE(v),gt,c); }), want=*std::max_element(v.begin(),v.end()); MC_ASSERT(got==want,"maximum of %s cutoff %ld gave %d",show(v).c_str(),c,got); }
MC_SCENARIO(extremum_iter,0,1,F_SEQ){ BOTH(ext_,4); }
MC_SCENARIO(extremum_ranges,1,2,F_SEQ){ auto v=seq_in(1,4,3); long c=seq_cut(v.size()); int form=mc::choose(4); P2 lt=[](int const& a,int const& b){ return a<b; }; auto const& cv=v; int got;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_extremum(cv,lt,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_extremum(std::vector<int>(v),lt,c); }); break; default: got=seq_ok([&]{ return ba::parallel_extremum(cont_of(v,form-2),lt,c); }); }
  MC_ASSERT(got==*std::min_element(v.begin(),v.end()),"minimum (form %d) of %s cutoff %ld gave %d",form,show(v).c_str(),c,got); }
struct Hits { std::vector<long> p; void operator()(long i){ p.push_back(i); } void merge(Hits&& o){ p.insert(p.end(),o.p.begin(),o.p.end()); } };
static std::vector<long> occurrences(std::vector<int> const& v,std::vector<int> const& w){ std::vector<long> r; if(w.empty()) return r; for(size_t i=0;i+w.size()<=v.size();i++) if(std::equal(w.begin(),w.end(),v.begin()+i)) r.push_back(i); return r; }
template<class Cat> static void kmp_(int N,int M){ auto v=seq_in(0,N,2), w=seq_in(0,M,2); long c=seq_cut(v.size());
  auto got=seq_ok([&]{ return ba::parallel_kmp(CB(v),CE(v),CB(w),CE(w),Hits(),c); }); std::sort(got.p.begin(),got.p.end()); auto want=occurrences(v,w);
  MC_ASSERT(got.p==want,"kmp of %s in %s cutoff %ld found %s, expected %s",show(w).c_str(),show(v).c_str(),c,show(got.p).c_str(),show(want).c_str()); }
MC_SCENARIO(kmp_iter,0,1,F_SEQ){ kmp_<RA>(7,4); }
MC_SCENARIO(kmp_forms,1,2,F_SEQ){ auto v=seq_in(0,4,2), w=seq_in(0,2,2); long c=seq_cut(v.size()); int form=mc::choose(5); auto const&cv=v; auto const&cw=w; Hits got;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_kmp(cv,cw,Hits(),c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_kmp(std::vector<int>(v),std::vector<int>(w),Hits(),c); }); break;
   case 2: got=seq_ok([&]{ return ba::parallel_kmp(cont_of(v,1),cont_of(w,0),Hits(),c); }); break; case 3: got=seq_ok([&]{ return ba::parallel_kmp(cont_of(v,1),cw,Hits(),c); }); break; default: got=seq_ok([&]{ return ba::parallel_kmp(cv,cont_of(w,1),Hits(),c); }); }
  std::sort(got.p.begin(),got.p.end()); MC_ASSERT(got.p==occurrences(v,w),"kmp form %d of %s in %s cutoff %ld found %s",form,show(w).c_str(),show(v).c_str(),c,show(got.p).c_str()); }
