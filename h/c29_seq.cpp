// C29 (engine C): every sequence of operations on the carriers of values, exceptions, jobs and bound arguments
#include "common.h"
#include <boost/asynchronous/expected.hpp>
#include <boost/asynchronous/detail/move_bind.hpp>
#include <array>
#include <exception>
static std::string trace; // the operations so far
// ---- payloads: every live object is registered; v<0: moved away
struct Tok { static inline int live; static inline int valid[16]; static void reset(){ live=0; for(int&x:valid) x=0; }
  int v; static void in(int v){ live++; if(v>=0) valid[v]++; } static void out(int v){ live--; if(v>=0) valid[v]--; }
  explicit Tok(int x):v(x){ in(v); } Tok(Tok const&o):v(o.v){ in(v); } Tok(Tok&&o)noexcept:v(o.v){ if(v>=0) valid[v]--; o.v=-1; in(v); }
  Tok& operator=(Tok const&o){ if(this!=&o){ out(v); v=o.v; in(v); } return *this; } Tok& operator=(Tok&&o)noexcept{ if(this!=&o){ out(v); v=o.v; if(v>=0) valid[v]--; o.v=-1; in(v); } return *this; } ~Tok(){ out(v); } };
struct Def { Tok t; Def():t(0){} explicit Def(int v):t(v){} };                    // default constructible: value 0
struct NoDef { Tok t; explicit NoDef(int v):t(v){} };
struct MDef { Tok t; MDef():t(0){} explicit MDef(int v):t(v){} MDef(MDef&&)=default; MDef& operator=(MDef&&)=default; };
struct MNoDef { Tok t; explicit MNoDef(int v):t(v){} MNoDef(MNoDef&&)=default; MNoDef& operator=(MNoDef&&)=default; };
// ---- expected
struct M { enum S { EMPTY, VAL, EXC, MOVED, LOOSE } s=EMPTY; int v=0,e=0; bool hasv=false; };  // LOOSE: value set over an unknown rest
template<class T,bool D,bool C> struct Ex { using E=ba::expected<T>; std::array<std::unique_ptr<E>,3> h; std::array<M,3> m; int next=1; bool stop=false;
  static std::exception_ptr mk(int k){ return std::make_exception_ptr(my_err(k)); }
  static int code(std::exception_ptr p){ if(!p) return -1; try{ std::rethrow_exception(p); }catch(my_err&x){ return x.code; }catch(...){ return -2; } }
  void look(int i){ if(!h[i]||m[i].s==M::MOVED||m[i].s==M::LOOSE) return; E& x=*h[i]; E const& cx=x; bool ex=m[i].s==M::EXC;
    MC_ASSERT(cx.has_exception()==ex&&cx.has_value()==!ex,"holder %d: has_exception %d has_value %d after:%s",i,cx.has_exception(),cx.has_value(),trace.c_str());
    MC_ASSERT(code(x.get_exception_ptr())==(ex?m[i].e:-1),"holder %d: exception %d, must be %d after:%s",i,code(x.get_exception_ptr()),ex?m[i].e:-1,trace.c_str());
    if(ex){ for(int c=0;c<2;c++){ int got=0; try{ if(c) (void)cx.get(); else (void)x.get(); }catch(my_err&r){ got=r.code; } MC_ASSERT(got==m[i].e,"holder %d: get() threw %d, must throw %d after:%s",i,got,m[i].e,trace.c_str()); } }
    else if(m[i].s==M::VAL||(D&&m[i].s==M::EMPTY)){ int want=m[i].s==M::VAL?m[i].v:0; int a=x.get().t.v,b=cx.get().t.v; MC_ASSERT(a==want&&b==want,"holder %d: value %d/%d, must be %d after:%s",i,a,b,want,trace.c_str()); } }
  void op(int n){ // one operation on holder i (and j)
    int o=mc::choose(n==0?3:C?9:7); int i=n==0?0:mc::choose(3); int j=0; 
    if(o>=5){ j=mc::choose(3); }
    char b[40]; snprintf(b,sizeof b," %s(%d,%d)",(const char*[]){"default","value","exception","set_value","set_exception","move_ctor","move_assign","copy_ctor","copy_assign"}[o],i,j); 
    if((o>=5&&!h[j])||((o==3||o==4||o==6||o==8)&&!h[i])||((o==5||o==7)&&i==j)){ stop=true; return; } trace+=b;
    switch(o){
      case 0: h[i].reset(); h[i].reset(new E()); m[i]=M(); break;
      case 1: { int v=next++; h[i].reset(); h[i].reset(new E(T(v))); m[i]=M(); m[i].s=M::VAL; m[i].v=v; m[i].hasv=true; break; }
      case 2: { int v=next++; h[i].reset(); h[i].reset(new E(mk(v))); m[i]=M(); m[i].s=M::EXC; m[i].e=v; break; }
      case 3: { int v=next++; h[i]->set_value(T(v)); if(m[i].s==M::EMPTY||m[i].s==M::VAL){ m[i].s=M::VAL; m[i].v=v; } else if(m[i].s==M::MOVED) m[i].s=M::LOOSE; else if(m[i].s==M::EXC){ m[i].v=v; m[i].hasv=true; } break; }
      case 4: { int v=next++; h[i]->set_exception(mk(v)); m[i].s=M::EXC; m[i].e=v; break; }
      case 5: { M a=m[j]; h[i].reset(); h[i].reset(new E(std::move(*h[j]))); m[i]=a; m[j].s=M::MOVED; break; }
      case 6: { M a=m[j]; *h[i]=std::move(*h[j]); if(i!=j){ m[i]=a; m[j].s=M::MOVED; } break; }
      case 7: if constexpr(C){ h[i].reset(); h[i].reset(new E(static_cast<E const&>(*h[j]))); m[i]=m[j]; } break;
      case 8: if constexpr(C){ *h[i]=static_cast<E const&>(*h[j]); m[i]=m[j]; } break; }
    for(int k=0;k<3;k++) look(k); }
  void run(int depth){ Tok::reset(); trace.clear(); for(int n=0;n<depth&&!stop;n++) op(n); for(auto&x:h) x.reset(); MC_ASSERT(Tok::live==0,"%d values were never destroyed after:%s",Tok::live,trace.c_str()); } };
static void exp_void(int depth){ using E=ba::expected<void>; trace.clear(); std::array<std::unique_ptr<E>,2> h; std::array<int,2> m{{0,0}}; int next=1; // m: 0 value, >0 exception, -1 moved
  for(int n=0;n<depth;n++){ int o=mc::choose(9),i=mc::choose(2),j=1-i; if((o>=2&&o<=4&&!h[i])||(o>=5&&!h[j])||((o==6||o==8)&&!h[i])) break; trace+=" "+std::to_string(o)+"("+std::to_string(i)+")";
    switch(o){ case 0: h[i].reset(new E()); m[i]=0; break; case 1: h[i].reset(new E(std::make_exception_ptr(my_err(next)))); m[i]=next++; break; case 2: h[i]->set_value(); if(m[i]<0) m[i]=-1; break; case 3: case 4: h[i]->set_exception(std::make_exception_ptr(my_err(next))); m[i]=next++; break;
      case 5: h[i].reset(new E(std::move(*h[j]))); m[i]=m[j]; m[j]=-1; break; case 6: *h[i]=std::move(*h[j]); m[i]=m[j]; m[j]=-1; break; case 7: h[i].reset(new E(static_cast<E const&>(*h[j]))); m[i]=m[j]; break; case 8: *h[i]=static_cast<E const&>(*h[j]); m[i]=m[j]; break; }
    for(int k=0;k<2;k++) if(h[k]&&m[k]>=0){ E& x=*h[k]; E const& cx=x; MC_ASSERT(cx.has_exception()==(m[k]>0)&&cx.has_value()==(m[k]==0),"void holder %d after:%s",k,trace.c_str()); for(int c=0;c<2;c++){ int got=0; try{ if(c) cx.get(); else x.get(); }catch(my_err&e){ got=e.code; } MC_ASSERT(got==m[k],"void holder %d: get() threw %d, must be %d after:%s",k,got,m[k],trace.c_str()); } } } }
MC_SCENARIO(expected_def,0,0,F_SEQ){ Ex<Def,true,true>().run(5); }
MC_SCENARIO(expected_nodef,0,0,F_SEQ){ Ex<NoDef,false,true>().run(5); }
MC_SCENARIO(expected_moveonly,0,0,F_SEQ){ Ex<MDef,true,false>().run(5); }
MC_SCENARIO(expected_moveonly_nodef,0,0,F_SEQ){ Ex<MNoDef,false,false>().run(5); }
MC_SCENARIO(expected_void,0,0,F_SEQ){ exp_void(5); }
// ---- jobs: a functor is in one place only, whatever happens to its wrapper
static int calls[16];
struct Job { Tok t; int mine=0; explicit Job(int v):t(v){} void operator()(){ MC_ASSERT(t.v>=0,"a functor is invoked which was moved away, after:%s",trace.c_str()); calls[t.v]++; } };
// a wrapper may hand the functor over or copy it; the source is not looked at any more, the target has it
template<class H> struct Jobs { std::array<std::unique_ptr<H>,3> h; std::array<int,3> m{{-1,-1,-1}}; int next=1; bool stop=false; // m: functor, -1 none, -2 unknown
  void call(int i){ if(m[i]<0) return; int v=m[i],b=calls[v]; (*h[i])(); MC_ASSERT(calls[v]==b+1,"holder %d does not hold functor %d after:%s",i,v,trace.c_str()); }
  void op(){ int o=mc::choose(6),i=mc::choose(3),j=0; if(o>=1&&o<=4){ j=mc::choose(3); if(!h[j]||m[j]<0||i==j){ stop=true; return; } } if((o==2||o==4||o==5)&&!h[i]){ stop=true; return; } char b[40]; snprintf(b,sizeof b," %s(%d,%d)",(const char*[]){"new","move_ctor","move_assign","copy_ctor","copy_assign","call"}[o],i,j); trace+=b;
    switch(o){ case 0: h[i].reset(); h[i].reset(new H(Job(next))); m[i]=next++; break;
      case 1: h[i].reset(); h[i].reset(new H(std::move(*h[j]))); m[i]=m[j]; m[j]=-2; break; case 2: *h[i]=std::move(*h[j]); m[i]=m[j]; m[j]=-2; break;
      case 3: h[i].reset(); h[i].reset(new H(static_cast<H const&>(*h[j]))); m[i]=m[j]; m[j]=-2; break; case 4: *h[i]=static_cast<H const&>(*h[j]); m[i]=m[j]; m[j]=-2; break;
      case 5: call(i); break; }
    for(int k=0;k<3;k++) if(m[k]>=0) MC_ASSERT(Tok::valid[m[k]]>=1,"functor %d got lost after:%s",m[k],trace.c_str()); }
  void run(int depth){ Tok::reset(); trace.clear(); for(int&c:calls) c=0; for(int n=0;n<depth&&!stop;n++) op(); for(int k=0;k<3;k++) call(k); for(auto&x:h) x.reset(); MC_ASSERT(Tok::live==0,"%d functors were never destroyed after:%s",Tok::live,trace.c_str()); } };
MC_SCENARIO(callable,0,0,F_SEQ){ Jobs<ba::any_callable>().run(5); }
// ---- bound arguments: move-only ones, in order, once
struct Rec { int got[3]; Tok t{15}; int operator()(MDef a,MNoDef b,int c){ MC_ASSERT(t.v==15,"the bound functor was moved away, after:%s",trace.c_str()); got[0]=a.t.v; got[1]=b.t.v; got[2]=c; return a.t.v*100+b.t.v*10+c; } };
static void bind(int depth){ Tok::reset(); trace.clear(); { typedef decltype(ba::move_bind(Rec(),MDef(1),MNoDef(2))) B; std::array<std::unique_ptr<B>,3> h; std::array<int,3> m{{-1,-1,-1}}; int next=1;
  for(int n=0;n<depth;n++){ int o=mc::choose(6),i=mc::choose(3),j=0; if(o>=1&&o<=4){ j=mc::choose(3); if(!h[j]||m[j]<0||i==j) return; } if((o==2||o==4||o==5)&&(!h[i]||(o==5&&m[i]<0))) return; trace+=" "+std::to_string(o)+"("+std::to_string(i)+","+std::to_string(j)+")";
    switch(o){ case 0: h[i].reset(new B(ba::move_bind(Rec(),MDef(next),MNoDef(next+1)))); m[i]=next; next+=2; break;
      case 1: h[i].reset(new B(std::move(*h[j]))); m[i]=m[j]; m[j]=-2; break; case 2: *h[i]=std::move(*h[j]); m[i]=m[j]; m[j]=-2; break; case 3: h[i].reset(new B(static_cast<B const&>(*h[j]))); m[i]=m[j]; m[j]=-2; break; case 4: *h[i]=static_cast<B const&>(*h[j]); m[i]=m[j]; m[j]=-2; break;
      case 5: { int r=(*h[i])(7); MC_ASSERT(r==m[i]*100+(m[i]+1)*10+7,"bound call gave %d, must be %d after:%s",r,m[i]*100+(m[i]+1)*10+7,trace.c_str()); m[i]=-2; break; } }
    for(int k=0;k<3;k++) if(m[k]>=0) MC_ASSERT(Tok::valid[m[k]]==1&&Tok::valid[m[k]+1]==1,"bound arguments %d got lost or doubled after:%s",m[k],trace.c_str()); }
  for(int k=0;k<3;k++) if(m[k]>=0){ int r=(*h[k])(3); MC_ASSERT(r==m[k]*100+(m[k]+1)*10+3,"bound call gave %d after:%s",r,trace.c_str()); } }
  MC_ASSERT(Tok::live==0,"%d bound objects were never destroyed after:%s",Tok::live,trace.c_str()); }
MC_SCENARIO(bound,0,0,F_SEQ){ bind(5); }
MC_SCENARIO(expected_def_deep,-1,0,F_SEQ){ Ex<Def,true,true>().run(6); }
MC_SCENARIO(expected_nodef_deep,-1,0,F_SEQ){ Ex<NoDef,false,true>().run(6); }
MC_SCENARIO(callable_deep,-1,0,F_SEQ){ Jobs<ba::any_callable>().run(6); }
MC_SCENARIO(bound_deep,-1,0,F_SEQ){ bind(6); }
