#include "seq.h"
using namespace mc;
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
typedef std::string S; typedef std::vector<S> VS; typedef std::function<S(S const&,S const&)> F2; typedef std::function<S(S const&)> F1;
static VS letters(int n){ VS v; for(int i=0;i<n;i++) v.push_back(S(1,'a'+i)); return v; }
static F2 op_of(int k){ if(k==0) return [](S const&a,S const&b){ return a+b; }; return [](S const&a,S const&b){ return a+"."+b; }; }
static VS psum(VS const&v,F2 const&f){ VS r; S a; for(size_t i=0;i<v.size();i++){ a= i? f(a,v[i]) : v[i]; r.push_back(a); } return r; }
static VS incl(VS const&v,S init,F2 const&f){ VS r; for(auto&x:v){ init=f(init,x); r.push_back(init); } return r; }
static VS excl(VS const&v,S init,F2 const&f){ VS r; for(auto&x:v){ r.push_back(init); init=f(init,x); } return r; }
#define CHK(what) MC_ASSERT(got==want,"%s of %d elements cutoff %ld form %d op %d gave %s, expected %s",what,n,c,form,k,show_s(got).c_str(),show_s(want).c_str())
template<class Cat> static void scan_it(int N){ int n=mc::choose(N+1); long c=seq_cut(n); int k=mc::choose(2), form=mc::choose(5); VS v=letters(n), v0=v; F2 f=op_of(k); VS buf(n+2,"~"), want; typedef CIt<S,Cat> It; It b(v.data(),0,n,0),e(v.data(),0,n,n),o(buf.data(),1,n+1,1); F1 up=[](S const&x){ return S("<")+x; }; VS tv; for(auto&x:v) tv.push_back(up(x)); const char* nm[]={"parallel_partial_sum","parallel_inclusive_scan","parallel_exclusive_scan","parallel_transform_inclusive_scan","parallel_transform_exclusive_scan"}; S tot;
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_partial_sum(b,e,o,f,c); }); want=psum(v,f); break; case 1: seq_ok([&]{ return ba::parallel_inclusive_scan(b,e,o,S("I"),f,c); }); want=incl(v,"I",f); break; case 2: seq_ok([&]{ return ba::parallel_exclusive_scan(b,e,o,S("I"),f,c); }); want=excl(v,"I",f); break;
   case 3: seq_ok([&]{ return ba::parallel_transform_inclusive_scan(b,e,o,S("I"),f,up,c); }); want=incl(tv,"I",f); break; default: seq_ok([&]{ return ba::parallel_transform_exclusive_scan(b,e,o,S("I"),f,up,c); }); want=excl(tv,"I",f); }
  VS got(buf.begin()+1,buf.end()-1); CHK(nm[form]); MC_ASSERT(v==v0,"%s changed its input",nm[form]); MC_ASSERT(buf[0]=="~"&&buf[n+1]=="~","%s wrote outside of its destination",nm[form]); }
MC_SCENARIO(scan_iter,3,4,F_SEQ){ BOTH(scan_it,6); }
MC_SCENARIO(scan_ranges,2,3,F_SEQ){ int n=mc::choose(6); long c=seq_cut(n); int k=mc::choose(2), form=mc::choose(9); VS v=letters(n); F2 f=op_of(k); VS got,want; VS out(n,"~"); std::pair<VS,VS> p;
  switch(form){ case 0: p=seq_ok([&]{ return ba::parallel_partial_sum(VS(v),VS(out),f,c); }); got=p.second; want=psum(v,f); MC_ASSERT(p.first==v,"parallel_partial_sum changed its input"); break; case 1: got=seq_ok([&]{ return ba::parallel_partial_sum(VS(v),f,c); }); want=psum(v,f); break; case 2: case 3: got=seq_ok([&]{ return ba::parallel_partial_sum(cont_of(v,form-2),f,c); }); want=psum(v,f); break;
   case 4: p=seq_ok([&]{ return ba::parallel_inclusive_scan(VS(v),VS(out),S("I"),f,c); }); got=p.second; want=incl(v,"I",f); MC_ASSERT(p.first==v,"parallel_inclusive_scan changed its input"); break; case 5: got=seq_ok([&]{ return ba::parallel_inclusive_scan(VS(v),S("I"),f,c); }); want=incl(v,"I",f); break; case 6: case 7: got=seq_ok([&]{ return ba::parallel_inclusive_scan(cont_of(v,form-6),S("I"),f,c); }); want=incl(v,"I",f); break;
   default: p=seq_ok([&]{ return ba::parallel_exclusive_scan(VS(v),VS(out),S("I"),f,c); }); got=p.second; want=excl(v,"I",f); }
  CHK("scan"); }
