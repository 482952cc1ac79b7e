// subtasks that deliver their result in every way, for C13
#pragma once
struct CStash { std::vector<std::function<void()>> later; int fired=0; int delivered[64]; int ran[64]; CStash(){ for(int i=0;i<64;i++) delivered[i]=ran[i]=0; } };
inline CStash cs;
// kind: 0 value, 1 exception, 2 value later, 3 exception later, 4 through two nested subtasks, 5 through nested subtasks of which one fails
enum { K_VAL, K_EXC, K_LVAL, K_LEXC, K_NEST, K_NESTEXC, K_N };
inline bool k_fails(int k){ return k==K_EXC||k==K_LEXC||k==K_NESTEXC; }
template<class T> T k_value(int id){ if constexpr(std::is_same<T,std::string>::value) return std::string("v")+std::to_string(id); else return T(100+id); }
template<class T> struct Sub : ba::continuation_task<T> {
  int id,kind; Sub(int i=0,int k=0):ba::continuation_task<T>("sub"),id(i),kind(k){}
  static void give(ba::continuation_result<T> res,int id,bool fail){ if(cs.delivered[id]++) mc::fail("harness: subtask %d delivers twice",id); if(fail) res.set_exception(std::make_exception_ptr(my_err(id))); else if constexpr(std::is_void<T>::value) res.set_value(); else res.set_value(k_value<T>(id)); }
  void operator()(){ auto res=this->this_task_result(); int i=id,k=kind; if(cs.ran[i]++) mc::fail("subtask %d was executed twice",i);
    if(k==K_VAL||k==K_EXC) give(res,i,k==K_EXC);
    else if(k==K_LVAL||k==K_LEXC) cs.later.push_back([res,i,k]{ give(res,i,k==K_LEXC); });
    else ba::create_callback_continuation([res,i](auto r){ 
        bool f=false; try{ std::get<0>(r).get(); } catch(my_err& e){ if(e.code!=2*i+20) mc::fail("nested subtask %d: exception of another task (%d) in the first position",2*i+20,e.code); f=true; }
        try{ std::get<1>(r).get(); } catch(my_err& e){ mc::fail("nested subtask %d: exception %d in the position of a successful task",2*i+21,e.code); }
        if(cs.delivered[2*i+20]!=1||cs.delivered[2*i+21]!=1) mc::fail("completion of subtask %d ran before its nested subtasks delivered",i); give(res,i,f); },
      Sub<int>(2*i+20,k==K_NESTEXC?K_EXC:K_VAL), Sub<std::string>(2*i+21,K_VAL)); } };
// the result in position id
template<class T> void k_check(ba::expected<T>& e,int id,bool fail){ if(cs.delivered[id]!=1) mc::fail("the completion ran before subtask %d delivered",id);
  int code=-1; bool val=false; try{ if constexpr(std::is_void<T>::value){ e.get(); val=true; } else { T v=e.get(); val= v==k_value<T>(id); if(!val) mc::fail("position of subtask %d holds another value",id); } } catch(my_err& x){ code=x.code; } catch(...){ code=-2; }
  MC_ASSERT(fail? (!val && code==id) : val,"position of subtask %d holds %s (code %d), expected %s",id,val?"a value":"an exception",code,fail?"its exception":"its value"); }
inline void k_fire(){ if(cs.fired++) mc::fail("the completion was invoked twice"); }
