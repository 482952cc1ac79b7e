// Harness API of the in-process stateless model checker (see mcrt.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>
namespace mc {
// ---- choices -------------------------------------------------------------------------------
int  choose(int n);                 // exhaustive data choice, free (cost 0); option 0 first
int  choose_dev(int n);             // choice whose options 1..n-1 cost one deviation each
bool exploring();                   // false outside an execution
// ---- scheduling ----------------------------------------------------------------------------
void point();                       // explicit visible scheduling point
int  tid();                         // fiber id inside this execution (0 = main)
void wait_until(const std::function<bool()>& pred);   // blocks until pred() (evaluated by the scheduler)
uint64_t now_ns();                  // virtual time since start of the execution
uint64_t step();                    // visible operations so far
int  alive_threads();               // started and not yet finished threads, main excluded
int  started_threads();             // threads ever started in this execution, main excluded
void settle();                      // run the others until nothing moves any more (quiescence)
// ---- observation ---------------------------------------------------------------------------
struct Event { int tid; int kind; long a; long b; uint64_t step; };
void ev(int kind, long a=0, long b=0);                // append to the execution's event log
int  nev();
const Event& event(int i);
int  count_ev(int kind, long a=-1, long b=-1);        // -1: any
int  find_ev(int kind, long a=-1, long b=-1);         // index of first, or -1
void outcome(uint64_t h);           // classify this execution (counted as distinct outcomes)
void outcome_s(const std::string&);
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf,1,2)));
// optional sub-signature added to failures (used to recognise known findings)
long live_blocks();                 // heap blocks allocated and not freed
// ---- registration --------------------------------------------------------------------------
enum Flags { F_NONE=0, F_RACE=1 /*race+UAF detector on*/, F_LEAVE_THREADS=2 /*surviving threads allowed*/,
             F_TRYLOCK=4 /*schedule before unlock too*/, F_NO_TIMEOUT_DEV=8 /*timeouts only at quiescence*/,
             F_SEQ=16 /*single-threaded: no scheduling points*/, F_SPURIOUS=32 };
struct Scenario { const char* name; void(*fn)(); int quick_bound; int thorough_bound; int flags; Scenario* next; int tier; };
struct Reg { Scenario s; Reg(const char*n,void(*f)(),int q,int t,int fl,int tier=0); };
}
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// name, deviation bound in quick tier, in thorough tier, flags. quick bound -1: thorough only
#define MC_SCENARIO(NAME,QB,TB,FLAGS) \
  static void MC_CAT(mc_s_,NAME)(); static mc::Reg MC_CAT(mc_r_,NAME)(#NAME,&MC_CAT(mc_s_,NAME),QB,TB,FLAGS); \
  static void MC_CAT(mc_s_,NAME)()
#define MC_ASSERT(c, ...) do{ if(!(c)) mc::fail("assertion " #c ": " __VA_ARGS__); }while(0)
#define MC_NOSAN __attribute__((no_sanitize("thread")))
