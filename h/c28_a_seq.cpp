#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include "excm.h"
MC_SCENARIO(x_predicates,1,2,F_SEQ){ int form=mc::choose(17); auto x=x_in(4); auto v=x.v; V const& cv=v; long c=x.c; switch(form){
 XF(0,"parallel_count_if",ba::parallel_count_if(B,EN,x_odd,c)) XF(1,"parallel_count_if(range&)",ba::parallel_count_if(cv,x_odd,c)) XF(2,"parallel_count_if(moved range)",ba::parallel_count_if(V(v),x_odd,c)) XF(3,"parallel_count_if(continuation)",ba::parallel_count_if(cont_of(v,1),x_odd,c)) XF(4,"parallel_count_if(failing continuation)",ba::parallel_count_if(fail_cont<V>(1),x_odd,c))
 XF(5,"parallel_find_all",ba::parallel_find_all(B,EN,x_odd,c)) XF(6,"parallel_find_all(range&)",ba::parallel_find_all(cv,x_odd,c)) XF(7,"parallel_find_all(moved range)",ba::parallel_find_all(V(v),x_odd,c)) XF(8,"parallel_find_all(continuation)",ba::parallel_find_all(cont_of(v,1),x_odd,c)) XF(9,"parallel_find_all(failing continuation)",ba::parallel_find_all(fail_cont<V>(0),x_odd,c))
 XF(10,"parallel_all_of",ba::parallel_all_of(B,EN,x_all,c)) XF(11,"parallel_all_of(continuation)",ba::parallel_all_of(cont_of(v,1),x_all,c)) XF(12,"parallel_any_of",ba::parallel_any_of(B,EN,x_none,c)) XF(13,"parallel_any_of(continuation)",ba::parallel_any_of(cont_of(v,0),x_odd,c)) XF(14,"parallel_none_of",ba::parallel_none_of(B,EN,x_none,c)) XF(15,"parallel_none_of(continuation)",ba::parallel_none_of(cont_of(v,1),x_none,c))
 default: { int k=mc::choose(3); if(k==0) x_run("parallel_all_of(failing continuation)",x,[&]{ return ba::parallel_all_of(fail_cont<V>(1),x_all,c); }); else if(k==1) x_run("parallel_any_of(failing continuation)",x,[&]{ return ba::parallel_any_of(fail_cont<V>(1),x_all,c); }); else x_run("parallel_none_of(failing continuation)",x,[&]{ return ba::parallel_none_of(fail_cont<V>(1),x_all,c); }); } } }
static const std::function<void(int&)> x_do=[](int& a){ th.at(a); }; static const std::function<void(int const&)> x_cdo=[](int const& a){ th.at(a); };
struct XColl { int n=0; void operator()(int const& a){ th.at(a); n++; } void merge(XColl const& o){ n+=o.n; } XColl(){} };
MC_SCENARIO(x_for,1,2,F_SEQ){ int form=mc::choose(11); auto x=x_in(4); auto v=x.v; V const& cv=v; long c=x.c; typedef V::iterator It; static const std::function<void(It,It)> seg=[](It a,It b){ for(;a!=b;++a) th.at(*a); }; switch(form){
 XF(0,"parallel_for",ba::parallel_for(B,EN,x_do,c)) XF(1,"parallel_for(range&)",ba::parallel_for(cv,x_cdo,c)) XF(2,"parallel_for(moved range)",ba::parallel_for(V(v),x_do,c)) XF(3,"parallel_for(continuation)",ba::parallel_for(cont_of(v,1),x_do,c)) XF(4,"parallel_for(failing continuation)",ba::parallel_for(fail_cont<V>(1),x_do,c)) XF(5,"parallel_for (segments)",ba::parallel_for(B,EN,seg,c)) XF(6,"parallel_for_each",ba::parallel_for_each(B,EN,XColl(),c))
 XF(7,"parallel_extremum",ba::parallel_extremum(B,EN,x_less,c)) XF(8,"parallel_is_sorted",ba::parallel_is_sorted(B,EN,x_less,c)) XF(9,"parallel_is_reverse_sorted",ba::parallel_is_reverse_sorted(B,EN,x_less,c)) XF(10,"parallel_is_partitioned",ba::parallel_is_partitioned(B,EN,x_odd,c)) } }
MC_SCENARIO(x_extremum_ranges,1,2,F_SEQ){ int form=mc::choose(4); auto x=x_in(4); if(x.v.empty()) return; auto v=x.v; V const& cv=v; long c=x.c; switch(form){
 XF(0,"parallel_extremum(range&)",ba::parallel_extremum(cv,x_less,c)) XF(1,"parallel_extremum(moved range)",ba::parallel_extremum(V(v),x_less,c)) XF(2,"parallel_extremum(continuation)",ba::parallel_extremum(cont_of(v,1),x_less,c)) XF(3,"parallel_extremum(failing continuation)",ba::parallel_extremum(fail_cont<V>(1),x_less,c)) } }
