// C23 (engine B): copies, moves, filters
#include "seq.h"
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_move_if_noexcept.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
using mc::F_SEQ;
struct MO { int v=-7; MO(){} explicit MO(int x):v(x){} MO(MO&&o)noexcept:v(o.v){ o.v=-1; } MO& operator=(MO&&o)noexcept{ v=o.v; o.v=-1; return *this; } MO(MO const&)=delete; MO& operator=(MO const&)=delete; };
struct MT { int v=-7; MT(){} explicit MT(int x):v(x){} MT(MT&&o):v(o.v){ o.v=-1; } MT& operator=(MT&&o){ v=o.v; o.v=-1; return *this; } MT(MT const&)=default; MT& operator=(MT const&)=default; }; // move may throw
template<class Cat> static void copy_(int N){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<int> v(n); std::iota(v.begin(),v.end(),1); Dst d(n+2); auto v0=v; int form=mc::choose(5);
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_copy(CB(v),CE(v),d.it<Cat>(),c); }); MC_ASSERT(v==v0,"copy changed its source"); break;
   case 1: { auto r=seq_ok([&]{ return ba::parallel_copy(std::vector<int>(v),d.it<Cat>(),c); }); MC_ASSERT(r==v0,"copy (moved range) returned %s",show(r).c_str()); break; }
   case 2: case 3: { auto r=seq_ok([&]{ return ba::parallel_copy(cont_of(v,form-2),d.it<Cat>(),c); }); MC_ASSERT(r==v0,"copy (continuation) returned %s",show(r).c_str()); break; }
   default: { int k=mc::choose(n+1); std::vector<int> w(v); w.insert(w.begin(),k,-7); /* overlapping to the left by k: std::copy semantics only for one chunk */ seq_ok([&]{ return ba::parallel_move(CB(v),CE(v),d.it<Cat>(),c); }); } }
  d.expect(v0,"copy",CTX); }
MC_SCENARIO(copy,2,3,F_SEQ){ BOTH(copy_,7); }
template<class Cat,class T> static void move_(int N,bool moves,bool ifn){ int n=mc::choose(N+1); long c=seq_cut(n); std::vector<T> v, d(n+1); for(int i=0;i<n;i++) v.emplace_back(i+1); 
  if(ifn) seq_ok([&]{ return ba::parallel_move_if_noexcept(CB(v),CE(v),CB(d),c); }); else if constexpr(true) seq_ok([&]{ return ba::parallel_move(CB(v),CE(v),CB(d),c); });
  for(int i=0;i<n;i++){ MC_ASSERT(d[i].v==i+1,"move of %d elements cutoff %ld: element %d is %d",n,c,i,d[i].v); MC_ASSERT(v[i].v==(moves?-1:i+1),"source element %d of the move is %d",i,v[i].v); } MC_ASSERT(d[n].v==-7,"move wrote behind the destination"); }
MC_SCENARIO(move,2,3,F_SEQ){ switch(mc::choose(3)){ case 0: if(mc::choose(2)) move_<RA,MO>(7,true,false); else move_<FW,MO>(7,true,false); break; case 1: move_<RA,MO>(7,true,true); break; default: move_<RA,MT>(7,false,true); } }
MC_SCENARIO(move_ranges,1,2,F_SEQ){ int n=mc::choose(6); long c=seq_cut(n); std::vector<std::string> v; for(int i=0;i<n;i++) v.push_back("element number "+std::to_string(i)); std::vector<std::string> d(n+1); int form=mc::choose(3);
  if(form==0) seq_ok([&]{ return ba::parallel_move(std::vector<std::string>(v),d.begin(),c); }); else seq_ok([&]{ return ba::parallel_move(cont_of(v,form-1),d.begin(),c); });
  for(int i=0;i<n;i++) MC_ASSERT(d[i]==v[i],"move (form %d) of %d strings, cutoff %ld: element %d is '%s'",form,n,c,i,d[i].c_str()); MC_ASSERT(d[n].empty(),"moved behind the destination"); }
template<class Cat> static void copy_if_(int N){ auto k=seq_in(0,N,2); int n=k.size(); long c=seq_cut(n); std::vector<int> v(n); for(int i=0;i<n;i++) v[i]=10*(i+1)+k[i]; auto v0=v; int form=mc::choose(3); P1 f=[](int const& x){ return x%10==1; };
  std::vector<int> want; CIt<int,Cat> r; 
  if(form==0){ for(int x:v) if(x%10==1) want.push_back(x); Dst d(want.size()); r=seq_ok([&]{ return ba::parallel_copy_if(CB(v),CE(v),d.it<Cat>(),f,c); }); d.expect(want,"copy_if",CTX); }
  else if(form==1){ for(int x:v) if(x%10!=1) want.push_back(x); Dst d(want.size()); r=seq_ok([&]{ return ba::parallel_remove_copy_if(CB(v),CE(v),d.it<Cat>(),f,c); }); d.expect(want,"remove_copy_if",CTX); }
  else { for(auto&x:v) x%=10; v0=v; for(int x:v) if(x!=1) want.push_back(x); Dst d(want.size()); r=seq_ok([&]{ return ba::parallel_remove_copy(CB(v),CE(v),d.it<Cat>(),1,c); }); d.expect(want,"remove_copy",CTX); }
  MC_ASSERT(v==v0,"the source changed"); MC_ASSERT(r.i==(long)want.size(),"%s of %s returned position %ld, expected %zu",form==0?"copy_if":form==1?"remove_copy_if":"remove_copy",CTX.c_str(),r.i,want.size()); }
MC_SCENARIO(copy_if_remove_copy,1,2,F_SEQ){ BOTH(copy_if_,6); }
