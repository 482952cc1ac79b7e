// C04 (engine C): every operation sequence on any_queue_container up to a depth against a reference model
#include "common.h"
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <deque>
#include <set>
#include <limits>
typedef ba::any_queue_container<int, ba::default_find_position<ba::sequential_push_policy>> QS;
typedef ba::any_queue_container<int> QR;
typedef ba::lockfree_queue<int,ba::lockfree_size_max_size> LI; typedef ba::guarded_deque<int> GI; typedef ba::threadsafe_list<int> TI;
// reference: set of possible states, because "priority 0" may select any queue
struct St { std::vector<std::deque<int>> q; bool operator<(St const&o)const{ return q<o.q; } };
template<class Q> void run(Q& c,int K,int depth,bool sizes){
  std::set<St> S; { St s; s.q.resize(K); S.insert(s); } std::vector<bool> en(K,true); int next=1; std::string trace;
  const int NPUSH=K+3, NOPS=NPUSH+3+2*K;
  auto push_to=[&](int idx,int v){ std::set<St> n; for(auto s:S){ if(idx>=0){ s.q[idx].push_back(v); n.insert(s);} else for(int i=0;i<K;i++){ St t=s; t.q[i].push_back(v); n.insert(t);} } S=n; };
  auto check_pop=[&](bool got,int v,const char*what){
    std::set<St> n; bool ok=false;
    for(auto s:S){ int i=0; while(i<K && !(en[i]&&!s.q[i].empty())) i++;
      if(i==K){ if(!got){ ok=true; n.insert(s);} }
      else if(got && s.q[i].front()==v){ ok=true; s.q[i].pop_front(); n.insert(s); } }
    MC_ASSERT(ok,"%s returned %s%d, which no state of the reference model allows; history:%s",what,got?"element ":"nothing ",v,trace.c_str()); S=n; };
  for(int d=0;d<depth;d++){
    int op=mc::choose(NOPS);
    if(op<NPUSH){ size_t pr= op==K+2? std::numeric_limits<size_t>::max() : (size_t)op; trace+=" push@"+std::to_string((long)pr); int v=next++; 
      if(op==0 && d%2){ int cp=v; c.push(std::move(cp)); } else { int cp=v; c.push(std::move(cp),pr); }
      push_to(op==0?-1: op==K+2?K-1: std::min(op,K)-1, v); }
    else if(op==NPUSH){ trace+=" try_pop"; int v=-1; bool g=c.try_pop(v); check_pop(g,g?v:0,"try_pop"); }
    else if(op==NPUSH+1){ trace+=" try_steal"; int v=-1; bool g=c.try_steal(v); check_pop(g,g?v:0,"try_steal"); }
    else if(op==NPUSH+2){ bool all=true; for(auto&s:S){ bool any=false; for(int i=0;i<K;i++) if(en[i]&&!s.q[i].empty()) any=true; all&=any; } if(!all) return; trace+=" pop"; int v=c.pop(); check_pop(true,v,"pop"); }
    else { int i=(op-NPUSH-3)/2; bool e=(op-NPUSH-3)%2; if(en[i]==e) return; trace+=(e?" enable":" disable")+std::to_string(i+1); c.enable_queue(i+1,e); en[i]=e; }
    if(sizes){ auto z=c.get_queue_size(); bool ok=false; for(auto&s:S){ bool eq=z.size()==(size_t)K; for(int i=0;eq&&i<K;i++) eq=z[i]==s.q[i].size(); ok|=eq; } MC_ASSERT(ok,"get_queue_size wrong after:%s",trace.c_str()); }
  }
  // enabling everything, the remaining elements come out, best priority first
  for(int i=0;i<K;i++) c.enable_queue(i+1,true), en[i]=true;
  for(;;){ int v=-1; bool g=c.try_pop(v); trace+=" drain"; check_pop(g,g?v:0,"try_pop"); if(!g) break; }
  bool e=false; for(auto&s:S){ bool z=true; for(auto&q:s.q) z&=q.empty(); e|=z; } MC_ASSERT(e,"elements lost");
}
MC_SCENARIO(container_1,0,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(1)}; run(c,1,7,true); }
MC_SCENARIO(container_2,0,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(2)}; run(c,2,6,true); }
MC_SCENARIO(container_3,0,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(3)}; run(c,3,5,true); }
MC_SCENARIO(container_3_seqpush,0,0,mc::F_SEQ){ QS c{ba::any_queue_container_config<LI>(3)}; run(c,3,5,true); }
MC_SCENARIO(container_mixed,0,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(1),ba::any_queue_container_config<GI>(1)}; run(c,2,6,true); }
MC_SCENARIO(container_mixed3,0,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<TI>(1),ba::any_queue_container_config<GI>(1),ba::any_queue_container_config<LI>(1)}; run(c,3,5,false); }
MC_SCENARIO(container_2_deep,-1,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(2)}; run(c,2,8,true); }
MC_SCENARIO(container_3_deep,-1,0,mc::F_SEQ){ QR c{ba::any_queue_container_config<LI>(3)}; run(c,3,7,true); }
