#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include "excm.h"
MC_SCENARIO(x_reduce,1,2,F_SEQ){ int form=mc::choose(10); auto x=x_in(3); auto v=x.v; V w=v; V const& cv=v; long c=x.c; static const std::function<int(int const&,int const&)> pl=[](int const&a,int const&b){ return a+b; }; switch(form){
 XF(0,"parallel_reduce",ba::parallel_reduce(B,EN,x_plus,c)) XF(1,"parallel_reduce(range&)",ba::parallel_reduce(cv,x_plus,c)) XF(2,"parallel_reduce(moved range)",ba::parallel_reduce(V(v),x_plus,c)) XF(3,"parallel_reduce(continuation)",ba::parallel_reduce(cont_of(v,1),x_plus,c)) XF(4,"parallel_reduce(failing continuation)",ba::parallel_reduce(fail_cont<V>(1),x_plus,c))
 XF(5,"parallel_inner_product",ba::parallel_inner_product(B,EN,w.begin(),x_inc2,pl,c)) XF(6,"parallel_inner_product (reduction throws)",ba::parallel_inner_product(B,EN,w.begin(),pl,x_plus,1000,c)) XF(7,"parallel_inner_product(moved ranges)",ba::parallel_inner_product(V(v),V(w),x_inc2,pl,1000,c)) XF(8,"parallel_inner_product(continuations)",ba::parallel_inner_product(cont_of(v,1),cont_of(w,0),x_inc2,pl,1000,c)) XF(9,"parallel_inner_product(failing continuation)",ba::parallel_inner_product(cont_of(v,1),fail_cont<V>(0),x_inc2,pl,1000,c)) } }
MC_SCENARIO(x_scan,1,2,F_SEQ){ int form=mc::choose(10); auto x=x_in(3); auto v=x.v; V o(v.size()); long c=x.c; switch(form){
 XF(0,"parallel_partial_sum",ba::parallel_partial_sum(B,EN,o.begin(),x_plus,c)) XF(1,"parallel_partial_sum(moved range)",ba::parallel_partial_sum(V(v),x_plus,c)) XF(2,"parallel_partial_sum(continuation)",ba::parallel_partial_sum(cont_of(v,1),x_plus,c)) XF(3,"parallel_partial_sum(failing continuation)",ba::parallel_partial_sum(fail_cont<V>(1),x_plus,c))
 XF(4,"parallel_inclusive_scan",ba::parallel_inclusive_scan(B,EN,o.begin(),1000,x_plus,c)) XF(5,"parallel_inclusive_scan(continuation)",ba::parallel_inclusive_scan(cont_of(v,1),1000,x_plus,c)) XF(6,"parallel_exclusive_scan",ba::parallel_exclusive_scan(B,EN,o.begin(),1000,x_plus,c)) XF(7,"parallel_transform_inclusive_scan",ba::parallel_transform_inclusive_scan(B,EN,o.begin(),1000,x_plus,x_inc,c)) XF(8,"parallel_transform_exclusive_scan",ba::parallel_transform_exclusive_scan(B,EN,o.begin(),1000,x_plus,x_inc,c)) XF(9,"parallel_partial_sum(moved ranges)",ba::parallel_partial_sum(V(v),V(o),x_plus,c)) } }
