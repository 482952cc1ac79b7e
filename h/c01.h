// C01: exactly-once execution on the scheduler's own threads
#pragma once
#include "common.h"
enum { EXEC=1 };
template<class M> void exec_once(bool second_poster){
  Proxy s=M::make();
  auto ids=std::make_shared<std::vector<boost::thread::id>>(s.thread_ids());
  auto task=[ids](int k){ return [ids,k]{ mc::ev(EXEC,k,(long)(!ids->empty() && (M::dynamic_threads||id_index(*ids)>=0))); if(k==1) throw std::runtime_error("t"); }; };
  int n=3;
  if(second_poster){
    std::thread t([s,task]{ s.post(task(2)); });
    s.post(task(0)); s.post(task(1));
    mc::wait_until([&]{ return mc::count_ev(EXEC)>=n; });
    t.join();
  } else {
    s.post(task(0)); s.post(task(1)); s.post(task(2));
    mc::wait_until([&]{ return mc::count_ev(EXEC)>=n; });
  }
  s.reset();
  std::string o;
  for(int k=0;k<n;k++){ MC_ASSERT(mc::count_ev(EXEC,k)==1,"task %d executed %d times",k,mc::count_ev(EXEC,k)); }
  for(int i=0;i<mc::nev();i++){ MC_ASSERT(mc::event(i).b==1,"task %ld ran outside the scheduler's threads",mc::event(i).a); MC_ASSERT(mc::event(i).tid!=0,"task ran on the posting thread"); o+=std::to_string(mc::event(i).a)+"@"+std::to_string(mc::event(i).tid)+" "; }
  mc::outcome_s(o);
}
#define C01_SCN(M,QB,TB) struct M##_c01:M{ static constexpr bool dynamic_threads=C01_DYN; }; \
 MC_SCENARIO(M##_one_poster,QB,TB,0){ exec_once<M##_c01>(false); } \
 MC_SCENARIO(M##_two_posters,QB,TB,0){ exec_once<M##_c01>(true); }
