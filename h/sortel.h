#pragma once
#include "seq.h"
using namespace mc;
// element with key k and identity id; N has a non-trivial life cycle which is checked
struct E { int k=-1,id=-1; E(){} E(int k,int i):k(k),id(i){} };
struct N { static long live; unsigned magic=0xA11FE; int k=-1,id=-1; void ok(const char*w) const { if(magic!=0xA11FE) mc::fail("%s an element that is not constructed (memory before its construction or after its destruction)",w); }
  N(){ live++; } N(int k,int i):k(k),id(i){ live++; } N(N const&o):k(o.k),id(o.id){ o.ok("copy of"); live++; } N(N&&o) noexcept(false):k(o.k),id(o.id){ o.ok("move of"); o.k=-9; o.id=-9; live++; }
  N& operator=(N const&o){ ok("assignment to"); o.ok("assignment of"); k=o.k; id=o.id; return *this; } N& operator=(N&&o){ ok("assignment to"); o.ok("assignment of"); if(&o!=this){ k=o.k; id=o.id; o.k=-9; o.id=-9; } return *this; }
  ~N(){ ok("destruction of"); magic=0xDEAD; live--; } };
inline long N::live=0;
inline std::string show_el(int x){ return std::to_string(x); } template<class T> std::string show_el(T const&x){ return std::to_string(x.k)+"#"+std::to_string(x.id); }
template<class T> std::string showe(std::vector<T> const&v){ std::string s="["; for(auto&x:v) s+=show_el(x)+" "; return s+"]"; }
template<class T> struct Less { typedef std::function<bool(T const&,T const&)> type; static type get(){ return [](T const&a,T const&b){ return a.k<b.k; }; } };
inline int keyof(int x){ return x; } inline int idof(int x){ return x; } template<class T> int keyof(T const&x){ return x.k; } template<class T> int idof(T const&x){ return x.id; }
template<class T> T mk_el(int k,int id){ if constexpr(std::is_same<T,int>::value) return k; else return T(k,id); }
template<class T> std::vector<T> els(std::vector<int> const& k){ std::vector<T> v; for(size_t i=0;i<k.size();i++) v.push_back(mk_el<T>(k[i],(int)i)); return v; }
template<class T> typename Less<T>::type less_of(){ if constexpr(std::is_same<T,int>::value) return [](int const&a,int const&b){ return a<b; }; else return Less<T>::get(); }
// sorted permutation (stable: equal keys in order of identity)
template<class T> void check_perm(std::vector<T> const& got,std::vector<int> const& in,const char*what,std::string const& ctx){ std::vector<int> a,b; 
  MC_ASSERT(got.size()==in.size(),"%s of %s: %zu elements came back",what,ctx.c_str(),got.size());
  for(size_t i=0;i<got.size();i++){ if constexpr(std::is_same<T,int>::value){ a.push_back(got[i]); b.push_back(in[i]); } else { a.push_back(got[i].id); b.push_back((int)i); int id=got[i].id; MC_ASSERT(id>=0&&id<(int)in.size()&&got[i].k==in[id],"%s of %s damaged an element: %s",what,ctx.c_str(),showe(got).c_str()); } }
  std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); MC_ASSERT(a==b,"%s of %s is not a permutation of the input: %s",what,ctx.c_str(),showe(got).c_str()); }
template<class T> void check_sorted(std::vector<T> const& got,std::vector<int> const& in,bool stable,const char*what,std::string const& ctx){ check_perm(got,in,what,ctx);
  for(size_t i=1;i<got.size();i++){ int a=keyof(got[i-1]), b=keyof(got[i]); MC_ASSERT(a<=b,"%s of %s is not sorted: %s",what,ctx.c_str(),showe(got).c_str()); if(stable&&a==b) MC_ASSERT(idof(got[i-1])<=idof(got[i]),"%s of %s is not stable: %s",what,ctx.c_str(),showe(got).c_str()); } }
template<class T> struct LiveCheck { long before=N::live; void done(const char*what,std::string const&ctx){ if constexpr(std::is_same<T,N>::value) MC_ASSERT(N::live==before,"%s of %s constructed and did not destroy %ld elements",what,ctx.c_str(),N::live-before); } };
#define SCTX (show(in)+" cutoff "+std::to_string(c))

// a sorted input of lo..hi elements over alpha keys
inline std::vector<int> seq_sorted_in(int lo,int hi,int alpha){ int n=lo+mc::choose(hi-lo+1); std::vector<int> v(n); int k=0; for(auto&x:v){ k+=mc::choose(alpha-k); x=k; } return v; }
