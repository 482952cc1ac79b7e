#include "seq.h"
using namespace mc;
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
typedef std::string S; typedef std::vector<S> VS; typedef std::function<S(S const&,S const&)> F2;
static VS letters(int n){ VS v; for(int i=0;i<n;i++) v.push_back(S(1,'a'+i)); return v; }
static F2 op_of(int k){ if(k==0) return [](S const&a,S const&b){ return a+b; }; return [](S const&a,S const&b){ return a+"."+b; }; } // associative, not commutative; the second without neutral element
static S fold(VS const&v,F2 const&f){ if(v.empty()) return S(); S r=v[0]; for(size_t i=1;i<v.size();i++) r=f(r,v[i]); return r; }
template<class Cat> static void red_it(int N){ int n=mc::choose(N+1); long c=seq_cut(n); int k=mc::choose(2); int form=mc::choose(2); VS v=letters(n); CIt<S,Cat> b(v.data(),0,n,0),e(v.data(),0,n,n); F2 f=op_of(k); S got;
  if(form==0) got=seq_ok([&]{ return ba::parallel_reduce(b,e,f,c); });
  else { typedef CIt<S,Cat> It; std::function<S(It,It)> seg=[f](It x,It y){ if(x==y) return S(); S r=*x; for(++x;x!=y;++x) r=f(r,*x); return r; }; got=seq_ok([&]{ return ba::parallel_reduce(b,e,seg,f,c); }); }
  MC_ASSERT(got==fold(v,f),"parallel_reduce of %s cutoff %ld form %d gave '%s', left to right it is '%s'",show_s(v).c_str(),c,form,got.c_str(),fold(v,f).c_str()); }
MC_SCENARIO(reduce_iter,3,4,F_SEQ){ BOTH(red_it,7); }
MC_SCENARIO(reduce_ranges,2,3,F_SEQ){ int n=mc::choose(7); long c=seq_cut(n); int k=mc::choose(2), form=mc::choose(6); VS v=letters(n); VS const& cv=v; F2 f=op_of(k); S got; typedef VS::iterator It; typedef VS::const_iterator CI;
  auto segf=[f](auto x,auto y){ if(x==y) return S(); S r=*x; for(++x;x!=y;++x) r=f(r,*x); return r; }; std::function<S(It,It)> seg=segf; std::function<S(CI,CI)> cseg=segf;
  switch(form){ case 0: got=seq_ok([&]{ return ba::parallel_reduce(cv,f,c); }); break; case 1: got=seq_ok([&]{ return ba::parallel_reduce(VS(v),f,c); }); break; case 2: case 3: got=seq_ok([&]{ return ba::parallel_reduce(cont_of(v,form-2),f,c); }); break;
   case 4: got=seq_ok([&]{ return ba::parallel_reduce(VS(v),seg,f,c); }); break; default: got=seq_ok([&]{ return ba::parallel_reduce(cv,cseg,f,c); }); }
  MC_ASSERT(got==fold(v,f),"parallel_reduce of %s cutoff %ld form %d gave '%s', left to right it is '%s'",show_s(v).c_str(),c,form,got.c_str(),fold(v,f).c_str()); }
static VS pair_up(VS const&a,VS const&b){ VS r; for(size_t i=0;i<a.size();i++) r.push_back("("+a[i]+b[i]+")"); return r; }
static const F2 par=[](S const&a,S const&b){ return "("+a+b+")"; };
static VS digits(int n){ VS v; for(int i=0;i<n;i++) v.push_back(std::to_string(i)); return v; }
static void ip_expect(S const&got,VS const&a,VS const&b,F2 const&f,bool init,long c,int form){ VS p=pair_up(a,b); S want= p.empty()? (init?S("I"):S()) : init? f("I",fold(p,f)) : fold(p,f); MC_ASSERT(got==want,"parallel_inner_product of %zu elements cutoff %ld form %d%s gave '%s', expected '%s'",a.size(),c,form,init?" with an initial value":"",got.c_str(),want.c_str()); }
template<class Cat> static void ip_it(int N){ int n=mc::choose(N+1); long c=seq_cut(n); int k=mc::choose(2); bool init=mc::choose(2); VS a=letters(n), b=digits(n); F2 f=op_of(k); CIt<S,Cat> ab(a.data(),0,n,0),ae(a.data(),0,n,n),bb(b.data(),0,n,0);
  S got= init? seq_ok([&]{ return ba::parallel_inner_product(ab,ae,bb,par,f,S("I"),c); }) : seq_ok([&]{ return ba::parallel_inner_product(ab,ae,bb,par,f,c); }); ip_expect(got,a,b,f,init,c,0); }
MC_SCENARIO(inner_product_iter,3,4,F_SEQ){ BOTH(ip_it,6); }
MC_SCENARIO(inner_product_moved,2,3,F_SEQ){ int n=mc::choose(6); long c=seq_cut(n); int k=mc::choose(2); bool init=mc::choose(2); VS a=letters(n), b=digits(n); F2 f=op_of(k);
  S got= init? seq_ok([&]{ return ba::parallel_inner_product(VS(a),VS(b),par,f,S("I"),c); }) : seq_ok([&]{ return ba::parallel_inner_product(VS(a),VS(b),par,f,c); }); ip_expect(got,a,b,f,init,c,1); }
MC_SCENARIO(inner_product_conts,2,3,F_SEQ){ int n=mc::choose(5); long c=seq_cut(n); int k=mc::choose(2); bool init=mc::choose(2); int d=mc::choose(4); VS a=letters(n), b=digits(n); F2 f=op_of(k);
  S got= init? seq_ok([&]{ return ba::parallel_inner_product(cont_of(a,d&1),cont_of(b,d>>1),par,f,S("I"),c); }) : seq_ok([&]{ return ba::parallel_inner_product(cont_of(a,d&1),cont_of(b,d>>1),par,f,c); }); ip_expect(got,a,b,f,init,c,2); }
