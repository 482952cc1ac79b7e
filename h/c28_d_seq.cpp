#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include "excm.h"
MC_SCENARIO(x_partition,1,2,F_SEQ){ int form=mc::choose(11); auto x=x_in(4); auto v=x.v; V o(v.size()),o2(v.size()); long c=x.c; uint32_t t=1+mc::choose(2); switch(form){
 XF(0,"parallel_partition",ba::parallel_partition(B,EN,x_odd,t)) XF(1,"parallel_partition(moved range)",ba::parallel_partition(V(v),x_odd,t)) XF(2,"parallel_partition(continuation)",ba::parallel_partition(cont_of(v,1),x_odd,t)) XF(3,"parallel_partition(failing continuation)",ba::parallel_partition(fail_cont<V>(1),x_odd,t))
 XF(4,"parallel_stable_partition",ba::parallel_stable_partition(B,EN,o.begin(),x_odd,c)) XF(5,"parallel_stable_partition(moved range)",ba::parallel_stable_partition(V(v),x_odd,c)) XF(6,"parallel_stable_partition(continuation)",ba::parallel_stable_partition(cont_of(v,1),x_odd,c)) XF(7,"parallel_stable_partition(failing continuation)",ba::parallel_stable_partition(fail_cont<V>(1),x_odd,c))
 XF(8,"parallel_partition_copy",ba::parallel_partition_copy(B,EN,o.begin(),o2.begin(),x_odd,c)) XF(9,"parallel_unique",ba::parallel_unique(B,EN,x_eq,c)) XF(10,"parallel_unique(continuation)",ba::parallel_unique(cont_of(v,1),x_eq,c)) } }
MC_SCENARIO(x_groups,1,2,F_SEQ){ int form=mc::choose(4); auto x=x_in(4); auto v=x.v; int cmp=mc::choose(2); if(!cmp) std::sort(v.begin(),v.end()); V o(v.size()); long c=x.c; static const P2 lt=[](int const&a,int const&b){ return a<b; }; static const std::function<void(int&)> dof=[](int& a){ th.at(a); }; static const std::function<int(int)> tr=[](int a){ th.at(a); return a; }; static const std::function<int(int)> tr0=[](int a){ return a; }; static const std::function<void(int&)> nop=[](int&){};
 if(cmp){ std::sort(v.begin(),v.end()); switch(form&1){ XF(0,"parallel_grouped_for (throwing comparison)",ba::parallel_grouped_for(B,EN,x_less,nop,c)) XF(1,"parallel_grouped_transform (throwing comparison)",ba::parallel_grouped_transform(B,EN,o.begin(),x_less,tr0,c)) } return; }
 switch(form&1){ XF(0,"parallel_grouped_for",ba::parallel_grouped_for(B,EN,lt,dof,c)) XF(1,"parallel_grouped_transform",ba::parallel_grouped_transform(B,EN,o.begin(),lt,tr,c)) } }
// blocks of parallel_partition are at least 1000 elements long: throw on one element of a long range
MC_SCENARIO(x_partition_long,1,2,F_SEQ){ int n=2300; int where=mc::choose(6); uint32_t t=1+mc::choose(3); XIn x; x.c=0; x.n=1; x.v={where}; th=Th(); th.mask=1; th.kind=mc::choose(2); V v(n); for(int i=0;i<n;i++) v[i]=20+i; int pos[]={0,999,1000,1150,2000,n-1}; v[pos[where]]=0; x_run("parallel_partition of 2300 elements",x,[&]{ return ba::parallel_partition(B,EN,x_odd,t); }); }
