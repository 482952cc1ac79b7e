#include "seq.h"
using namespace mc;
#include <boost/asynchronous/algorithm/parallel_scan.hpp>
// parallel_scan with user supplied reduce / combine / scan, the latter with 4 or 5 arguments (total)
typedef std::string S; typedef std::vector<S> VS; typedef std::function<S(S const&,S const&)> F2;
static VS letters(int n){ VS v; for(int i=0;i<n;i++) v.push_back(S(1,'a'+i)); return v; }
static const F2 cat=[](S const&a,S const&b){ return a+b; };
struct Red { template<class It> S operator()(It b,It e) const { S r; for(;b!=e;++b) r+=*b; return r; } };
MC_SCENARIO(scan_generic,2,3,F_SEQ){ int n=mc::choose(7); long c=seq_cut(n); int form=mc::choose(4); VS v=letters(n), out(n,"~"), got, want; typedef VS::iterator It; S tot; for(auto&x:v) tot+=x; std::function<S(It,It)> red=[](It b,It e){ return Red()(b,e); }; bool five=mc::choose(2);
  auto s4=[](It b,It e,It o,S init) mutable { for(;b!=e;++b){ S x=*b; *o++=init; init+=x; } }; auto s5=[](It b,It e,It o,S init,S const& total) mutable { for(;b!=e;++b){ S x=*b; *o++=init+"/"+total; init+=x; } };
  S acc="I"; for(auto&x:v){ want.push_back(five?acc+"/"+tot:acc); acc+=x; } S total="?"; 
  switch(form){ case 0: total= five? seq_ok([&]{ return ba::parallel_scan(v.begin(),v.end(),out.begin(),S("I"),red,cat,s5,c); }) : seq_ok([&]{ return ba::parallel_scan(v.begin(),v.end(),out.begin(),S("I"),red,cat,s4,c); }); got=out; break;
   case 1: { auto p= five? seq_ok([&]{ return ba::parallel_scan(VS(v),VS(out),S("I"),red,cat,s5,c); }) : seq_ok([&]{ return ba::parallel_scan(VS(v),VS(out),S("I"),red,cat,s4,c); }); got=p.second; break; }
   case 2: got= five? seq_ok([&]{ return ba::parallel_scan(VS(v),S("I"),red,cat,s5,c); }) : seq_ok([&]{ return ba::parallel_scan(VS(v),S("I"),red,cat,s4,c); }); break;
   default: got= five? seq_ok([&]{ return ba::parallel_scan(cont_of(v,1),S("I"),red,cat,s5,c); }) : seq_ok([&]{ return ba::parallel_scan(cont_of(v,1),S("I"),red,cat,s4,c); }); }
  MC_ASSERT(got==want,"parallel_scan of %d elements cutoff %ld form %d gave %s, expected %s",n,c,form,show_s(got).c_str(),show_s(want).c_str()); if(form==0) MC_ASSERT(total==tot,"parallel_scan of %d elements cutoff %ld delivered the total '%s'",n,c,total.c_str()); }
