// C19 (sequential part): summaries of diagnostics are computed faithfully from all entries, however they were merged
#include "mc.h"
#include <cstring>
#include <new>
#include <map>
#include <list>
#include <memory>
#include <vector>
#include <boost/asynchronous/scheduler_diagnostics.hpp>
namespace ba=boost::asynchronous; using namespace mc;
typedef std::chrono::high_resolution_clock CK; typedef std::chrono::nanoseconds NS;
struct It { int name,kind; long post,start,fin; }; // kind 0 ok, 1 failed, 2 interrupted
static ba::diagnostic_item item(It const& i){ auto t=[](long v){ return CK::time_point(NS(v)); }; return ba::diagnostic_item(t(i.post),t(i.start),t(i.fin),i.kind==2,i.kind==1,boost::thread::id()); }
static char const* NM[]={"a","b"};
struct Ref { long n=0,total=0,mx=0,mn=0,recent=0,rt=-1,tmx=0,tmn=0; void add(long d,long when){ if(!n||d>mx){ mx=d; } if(!n||d<mn){ mn=d; } if(when>rt){ rt=when; recent=d; } n++; total+=d; } };
template<class D> static void cmp(char const* what,Ref const& r,D const& d,std::size_t count){ MC_ASSERT((long)count==r.n,"%s: count %d instead of %ld",what,(int)count,r.n); MC_ASSERT(d.total.count()==r.total,"%s: total %ld instead of %ld",what,(long)d.total.count(),r.total); MC_ASSERT(d.average.count()==(r.n?r.total/r.n:0),"%s: average %ld",what,(long)d.average.count()); if(r.n){ MC_ASSERT(d.max.count()==r.mx,"%s: maximum %ld instead of %ld",what,(long)d.max.count(),r.mx); MC_ASSERT(d.min.count()==r.mn,"%s: minimum %ld instead of %ld",what,(long)d.min.count(),r.mn); MC_ASSERT(d.recent.count()==r.recent,"%s: most recent %ld instead of %ld",what,(long)d.recent.count(),r.recent); } }
static void summary(int n,bool ctor){
  alignas(16) static unsigned char buf[sizeof(ba::summary_diagnostics)]; std::memset(buf,0xAA,sizeof buf); std::vector<It> all; std::vector<std::vector<It>> parts(1); bool rev=choose(2);
  for(int i=0;i<n;i++){ if(i&&choose(2)) parts.push_back({}); long base=1000*(rev?n-i:i+1); long s=choose(2)?30:10, e=choose(2)?50:20; It x{(int)choose(2),(int)choose(3),base,base+s,base+s+e}; all.push_back(x); parts.back().push_back(x); }
  auto diag=[](std::vector<It> const& v){ std::map<std::string,std::list<ba::diagnostic_item>> m; for(auto const& x:v) m[NM[x.name]].push_back(item(x)); m[""].push_back(item(It{0,1,1,900,999})); return ba::scheduler_diagnostics(m,{}); };
  std::map<std::string,std::vector<ba::simple_diagnostic_item>> simple; ba::summary_diagnostics* p; size_t first=0; if(ctor){ p=new(buf) ba::summary_diagnostics(diag(parts[0]),simple); first=1; } else p=new(buf) ba::summary_diagnostics; for(size_t i=first;i<parts.size();i++) p->merge(diag(parts[i]),simple);
  Ref r[2][5]; bool f=false,in=false; for(auto&x:all){ long s=x.start-x.post,e=x.fin-x.start; r[x.name][0].add(s,x.start); r[x.name][1+x.kind].add(e,x.fin); r[x.name][4].add(s+e,x.fin); f|=x.kind==1; in|=x.kind==2; }
  MC_ASSERT(p->has_fails==f&&p->has_interrupts==in,"flags"); bool pres[5]={}; for(int a=0;a<2;a++){ MC_ASSERT((p->items.count(NM[a])==1)==(r[a][4].n>0),"item %s",NM[a]); for(int k=0;k<5;k++) pres[k]|=r[a][k].n>0; if(!r[a][4].n){ MC_ASSERT(simple.count(NM[a])==0,"single items"); continue; } auto& it=p->items[NM[a]]; MC_ASSERT(it.job_name==NM[a],"name"); auto& d=it.durations; auto& c=it.count;
    cmp("scheduling",r[a][0],d.scheduling,c.scheduling); cmp("success",r[a][1],d.success,c.success); cmp("failure",r[a][2],d.failure,c.failure); cmp("interruption",r[a][3],d.interruption,c.interruption); cmp("total",r[a][4],d.total,c.total);
    auto& sv=simple[NM[a]]; size_t j=0; MC_ASSERT((long)sv.size()==r[a][4].n,"single items"); for(auto&x:all) if(x.name==a){ auto& y=sv[j++]; MC_ASSERT(y.job_name==NM[a]&&y.scheduling.count()==x.start-x.post&&y.execution.count()==x.fin-x.start&&y.total.count()==x.fin-x.post&&y.failed==(x.kind==1)&&y.interrupted==(x.kind==2),"single item"); } }
  MC_ASSERT(p->items.size()==(size_t)((r[0][4].n>0)+(r[1][4].n>0)),"items"); auto byte=[](bool const& b){ return (int)*reinterpret_cast<unsigned char const*>(&b); };
  auto mx=[&](int k,auto const& d,bool const& pr){ MC_ASSERT(byte(pr)==(pres[k]?1:0),"presence of maxima is %d instead of %d",byte(pr),(int)pres[k]); if(pres[k]){ long m=0,t=0; for(int a=0;a<2;a++) if(r[a][k].n){ m=std::max(m,r[a][k].mx); t=std::max(t,r[a][k].total); } MC_ASSERT(d.max.count()==m&&d.total.count()==t,"maxima %ld %ld",(long)d.max.count(),(long)d.total.count()); } };
  mx(0,p->maxima.scheduling,p->maxima_present.scheduling); mx(1,p->maxima.success,p->maxima_present.success); mx(2,p->maxima.failure,p->maxima_present.failure); mx(3,p->maxima.interruption,p->maxima_present.interruption); mx(4,p->maxima.total,p->maxima_present.total); 
  mc::outcome((int)p->items.size()*100+(int)parts.size()); p->~summary_diagnostics();
}
MC_SCENARIO(summary_1,0,0,F_SEQ){ summary(1,mc::choose(2)); }
MC_SCENARIO(summary_2,0,0,F_SEQ){ summary(2,mc::choose(2)); }
MC_SCENARIO(summary_3,0,0,F_SEQ){ summary(3,false); }
// merging the diagnostics of several schedulers keeps every entry, whatever names they share
MC_SCENARIO(merge,0,0,F_SEQ){ std::map<std::string,std::list<ba::diagnostic_item>> m[2]; std::vector<std::pair<std::string,ba::diagnostic_item>> c[2]; std::map<std::string,std::vector<long>> ref; char const* nm[]={"","a","b"}; int nc=0;
  for(int s=0;s<2;s++){ int n=mc::choose(4); for(int i=0;i<n;i++){ int k=mc::choose(3); long id=s*10+i+1; m[s][nm[k]].push_back(item(It{0,0,id,id+1,id+2})); ref[nm[k]].push_back(id); } if(mc::choose(2)){ c[s].push_back({nm[1+s],item(It{0,0,5,6,0})}); nc++; } }
  ba::scheduler_diagnostics d(m[0],c[0]); d.merge(ba::scheduler_diagnostics(m[1],c[1])); MC_ASSERT(d.totals().size()==ref.size(),"names"); for(auto&x:ref){ auto it=d.totals().find(x.first); MC_ASSERT(it!=d.totals().end()&&it->second.size()==x.second.size(),"entries of '%s'",x.first.c_str()); size_t j=0; for(auto&i:it->second) MC_ASSERT(i.get_posted_time().time_since_epoch().count()==x.second[j++],"order"); } MC_ASSERT((int)d.current().size()==nc,"current"); mc::outcome((int)ref.size()); }
MC_SCENARIO(empty_item,0,0,F_SEQ){ alignas(16) static unsigned char buf[sizeof(ba::diagnostic_item)]; std::memset(buf,0xAA,sizeof buf); auto* p=new(buf) ba::diagnostic_item(); auto b=p->is_failed(); auto i=p->is_interrupted(); MC_ASSERT((int)*(unsigned char*)&b==0&&(int)*(unsigned char*)&i==0,"an entry of no task is failed or interrupted"); mc::outcome(1); }
