// C05: every job queue is linearizable, keeps each element exactly once, and blocking pop never sleeps while an element is there
#include "common.h"
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <deque>
#include <algorithm>
struct OpR { int thr; char op; int arg; int res; uint64_t inv, ret; int poporder; };
struct Hist { std::vector<OpR> v; };
// ops: u push, t try_pop, s try_steal, b blocking pop
template<class Q> struct Ctx { Q q; Hist h; std::vector<int> val; };
template<class Q> void doop(Q& q,OpR& r){
  r.inv=mc::step(); 
  switch(r.op){
    case 'u': { int v=r.arg; q.push(std::move(v),0); break; }
    case 'U': { int v=r.arg; q.push(std::move(v)); break; }
    case 't': { int v=-1; r.res=q.try_pop(v)?v:0; break; }
    case 's': { int v=-1; r.res=q.try_steal(v)?v:0; break; }
    case 'b': r.res=q.pop(); break;
  }
  mc::point(); r.ret=mc::step();
}
// brute-force linearization check. lifo: stack; weak_try: a try_* may fail spuriously (documented as unsupported)
static bool lin(std::vector<OpR>& h,unsigned done,std::deque<int>& st,bool lifo,bool steal_unsupported){
  if(done==(1u<<h.size())-1) return true;
  uint64_t minret=~0ull; for(size_t i=0;i<h.size();i++) if(!(done>>i&1)) minret=std::min(minret,h[i].ret);
  for(size_t i=0;i<h.size();i++){ if(done>>i&1) continue; OpR&r=h[i]; if(r.inv>minret) continue;
    if(r.op=='u'||r.op=='U'){ st.push_back(r.arg); if(lin(h,done|1u<<i,st,lifo,steal_unsupported)) return true; st.pop_back(); }
    else if(r.res==0){ if((st.empty()||(r.op=='s'&&steal_unsupported)) && lin(h,done|1u<<i,st,lifo,steal_unsupported)) return true; }
    else { if(st.empty()) continue; int f=lifo?st.back():st.front(); if(f!=r.res) continue; if(lifo) st.pop_back(); else st.pop_front(); if(lin(h,done|1u<<i,st,lifo,steal_unsupported)) return true; if(lifo) st.push_back(f); else st.push_front(f); } }
  return false;
}
static std::string show(std::vector<OpR>const&h){ std::string o; for(auto&r:h){ o+="T"+std::to_string(r.thr)+r.op+(r.arg?std::to_string(r.arg):"")+"->"+std::to_string(r.res)+"["+std::to_string(r.inv)+","+std::to_string(r.ret)+"] "; } return o; }
template<class Q> void size_is(Q& q,size_t n,bool sup){ if(!sup) return; auto z=q.get_queue_size(); size_t s=0; for(auto x:z) s+=x; MC_ASSERT(s==n,"get_queue_size reports %zu, the queue holds %zu",s,n); }
// programs: one string of ops per thread; init: number of elements before
template<class Q> void run(std::vector<std::string> prog,int init,bool lifo,bool sizes,bool steal_unsup=false){
  auto c=std::make_shared<Ctx<Q>>(); int next=1; std::vector<std::vector<OpR>> hs(prog.size()); std::vector<OpR> all;
  for(int i=0;i<init;i++){ OpR r{9,'u',next++,0,0,0}; doop(c->q,r); all.push_back(r); } size_is(c->q,init,sizes);
  int pushes=init; for(size_t t=0;t<prog.size();t++) for(char o:prog[t]){ bool p=o=='u'||o=='U'; hs[t].push_back(OpR{(int)t,o,p?next++:0,0,0,0}); pushes+=p; }
  { std::vector<std::thread> ts; for(size_t t=1;t<prog.size();t++) ts.emplace_back([&,t]{ for(auto&r:hs[t]) doop(c->q,r); }); for(auto&r:hs[0]) doop(c->q,r); for(auto&t:ts) t.join(); }
  int pops=0; for(auto&h:hs) for(auto&r:h){ all.push_back(r); if(r.res) pops++; }
  size_is(c->q,pushes-pops,sizes);
  for(;;){ OpR r{8,'t',0,0,0,0}; doop(c->q,r); all.push_back(r); if(!r.res) break; }
  size_is(c->q,0,sizes);
  std::deque<int> st; MC_ASSERT(lin(all,0,st,lifo,steal_unsup),"history is not linearizable: %s",show(all).c_str());
  std::string o; for(auto&r:all) o+=std::to_string(r.res); mc::outcome_s(o);
}
// all pairs of two-operation programs over {push,try_pop,try_steal}; initial content 0 or 1
template<class Q> void pairs(bool lifo,bool sizes){ static const char* P="uts"; std::string a,b; a+=P[mc::choose(3)]; a+=P[mc::choose(3)]; b+=P[mc::choose(3)]; b+=P[mc::choose(3)]; int init=mc::choose(2); run<Q>({a,b},init,lifo,sizes); }
template<class Q> void triples(bool lifo,bool sizes){ static const char* P="uts"; std::vector<std::string> p; for(int i=0;i<3;i++) p.push_back(std::string(1,P[mc::choose(3)])); p[0]+=P[mc::choose(2)]; run<Q>(p,mc::choose(2),lifo,sizes); }
// a thread which reads the size while others push and pop: never more than was pushed until then; afterwards the maximum is one the queue really had
template<class Q> void sizes(bool has_max){
  Q q; int begun=0; static const char* P[]={"u","uu","ut","tu","t"}; std::string prog[2]={P[mc::choose(3)],P[mc::choose(5)]}; bool reader=mc::choose(2); int got[2]={0,0};
  auto body=[&](int t){ for(char o:prog[t]){ int v=7; if(o=='u'){ ++begun; q.push(std::move(v),0); } else got[t]+=q.try_pop(v); } };
  auto check=[&](const char* w){ auto z=q.get_queue_size(); MC_ASSERT(z.size()==1&&z[0]<=(size_t)begun,"%s: size %lu reported, %d elements were pushed",w,z.empty()?0ul:(unsigned long)z[0],begun); if(has_max){ z=q.get_max_queue_size(); MC_ASSERT(z.size()==1&&z[0]<=(size_t)begun,"%s: maximal size %lu reported, %d elements were pushed",w,z.empty()?0ul:(unsigned long)z[0],begun); } };
  { std::thread t([&]{ body(1); }); std::thread r([&]{ if(reader) check("meanwhile"); }); body(0); check("meanwhile"); t.join(); r.join(); }
  check("at the end"); size_is(q,begun-got[0]-got[1],true); if(has_max){ auto z=q.get_max_queue_size(); MC_ASSERT(z[0]>=(size_t)(begun-got[0]-got[1])&&z[0]>=1,"maximal size %lu, the queue holds %d elements",(unsigned long)z[0],begun-got[0]-got[1]); q.reset_max_queue_size(); z=q.get_max_queue_size(); MC_ASSERT(z[0]==0,"maximal size %lu after reset",(unsigned long)z[0]); } mc::outcome(got[0]*10+got[1]);
}
template<class Q> void max_seq(){ Q q; int n=1+mc::choose(3),top=0,cur=0; for(int i=0;i<4;i++){ int v=i; if(i<n||mc::choose(2)){ q.push(std::move(v),0); cur++; } else if(q.try_pop(v)) cur--; top=std::max(top,cur); auto z=q.get_max_queue_size(); MC_ASSERT(z.size()==1&&(int)z[0]==top,"maximal size %ld reported, was %d",z.empty()?-1l:(long)z[0],top); } }
// blocking pops: as many elements as pops, so every pop must return
template<class Q> void blocking(bool lifo,bool sizes){ static const std::vector<std::vector<std::string>> P={{"u","b"},{"uu","bb"},{"u","u","bb"},{"uu","b","b"},{"ub","ub"},{"ub","u","b"},{"Uu","bt"},{"UU","b","t"},{"tu","b"}};
  run<Q>(P[mc::choose((int)P.size())],0,lifo,sizes); }
typedef ba::lockfree_queue<int> L0; typedef ba::lockfree_queue<int,ba::lockfree_size> L1; typedef ba::lockfree_queue<int,ba::lockfree_size_max_size> L2;
typedef ba::lockfree_stack<int> K0; typedef ba::lockfree_stack<int,ba::lockfree_size> K1;
typedef ba::guarded_deque<int> GD; typedef ba::threadsafe_list<int> TL; typedef ba::circular_queue<int> CQ;
typedef ba::lockfree_spsc_queue<int,ba::lockfree_size> SP;
#define S05(N,Q,L,SZ,QB,TB) MC_SCENARIO(N##_pairs,QB,TB,0){ pairs<Q>(L,SZ); } MC_SCENARIO(N##_triples,QB,TB,0){ triples<Q>(L,SZ); }
#define B05(N,Q,L,SZ,QB,TB) MC_SCENARIO(N##_blocking,QB,TB,0){ blocking<Q>(L,SZ); }
S05(lockfree,L1,false,true,3,4)
S05(lockfree_max,L2,false,true,3,4)
S05(stack,K1,true,true,3,4)
S05(deque,GD,false,true,3,4)
S05(list,TL,false,false,3,4)
S05(circular,CQ,false,true,3,4)
B05(lockfree,L0,false,false,3,4)
B05(stack,K0,true,false,3,4)
B05(deque,GD,false,true,3,4)
B05(list,TL,false,false,3,4)
B05(circular,CQ,false,true,3,4)
MC_SCENARIO(lockfree_sizes,2,3,0){ sizes<L2>(true); }
MC_SCENARIO(stack_sizes,2,3,0){ sizes<ba::lockfree_stack<int,ba::lockfree_size_max_size>>(true); }
MC_SCENARIO(deque_sizes,2,3,0){ sizes<GD>(true); }
MC_SCENARIO(circular_sizes,2,3,0){ sizes<CQ>(false); }
MC_SCENARIO(lockfree_max_seq,0,0,F_SEQ){ max_seq<L2>(); }
MC_SCENARIO(stack_max_seq,0,0,F_SEQ){ max_seq<ba::lockfree_stack<int,ba::lockfree_size_max_size>>(); }
MC_SCENARIO(spsc_max_seq,0,0,F_SEQ){ max_seq<ba::lockfree_spsc_queue<int,ba::lockfree_size_max_size>>(); }
MC_SCENARIO(deque_max_seq,0,0,F_SEQ){ max_seq<GD>(); }
// single producer, single consumer
MC_SCENARIO(spsc,3,4,0){ static const char* A[]={"uu","uuu"}; static const char* B[]={"tt","bb","tb","ttt","bt"}; run<SP>({A[mc::choose(2)],B[mc::choose(5)]},0,false,true,true); }
// a full fixed-size queue makes the producer wait, not lose
struct SP1 : SP { SP1():SP(1){} };
MC_SCENARIO(spsc_full,3,4,0){ static const char* A[]={"uuu","uuuu"}; static const char* B[]={"bb","bbt","tbb"}; int a=mc::choose(2),b=mc::choose(3); run<SP1>({A[a],a?"bbb":B[b]},0,false,true,true); }
// the stealing view of a queue of another job type
#include <boost/asynchronous/queue/queue_converter.hpp>
MC_SCENARIO(converter,3,4,0){
  auto base=std::make_shared<L1>(); ba::any_queue_ptr<int> p(base); ba::queue_converter<long,int> cv(p);
  int init=mc::choose(3); for(int i=0;i<init;i++){ int v=i+1; base->push(std::move(v),0); }
  auto z=cv.get_queue_size(); MC_ASSERT(z.size()==1&&(int)z[0]==init,"the converter reports a size of %ld, the queue holds %d",z.empty()?-1L:(long)z[0],init);
  long a=0; int b=0; bool ga=false,gb=false;
  { std::thread t([&]{ gb=base->try_pop(b); }); ga=cv.try_steal(a); t.join(); }
  MC_ASSERT((int)ga+(int)gb==std::min(init,2),"%d elements, stolen %d popped %d",init,(int)ga,(int)gb);
  MC_ASSERT(!(ga&&gb)||a!=b,"element %d taken twice",b);
  mc::outcome_s(std::to_string(a)+std::to_string(b));
}
