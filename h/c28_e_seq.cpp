#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include "excm.h"
MC_SCENARIO(x_sort,1,2,F_SEQ){ int form=mc::choose(12); auto x=x_in(4); auto v=x.v; long c=x.c; switch(form){
 XF(0,"parallel_sort",ba::parallel_sort(B,EN,x_less,c)) XF(1,"parallel_stable_sort",ba::parallel_stable_sort(B,EN,x_less,c)) XF(2,"parallel_sort(moved range)",ba::parallel_sort(V(v),x_less,c)) XF(3,"parallel_sort2(moved range)",ba::parallel_sort2(V(v),x_less,c)) XF(4,"parallel_sort(continuation)",ba::parallel_sort(cont_of(v,1),x_less,c)) XF(5,"parallel_sort(failing continuation)",ba::parallel_sort(fail_cont<V>(1),x_less,c))
 XF(6,"parallel_sort2(continuation)",ba::parallel_sort2(cont_of(v,1),x_less,c)) XF(7,"parallel_sort_inplace",ba::parallel_sort_inplace(B,EN,x_less,c)) XF(8,"parallel_sort_move_inplace",ba::parallel_sort_move_inplace(V(v),x_less,c)) XF(9,"parallel_sort_inplace(continuation)",ba::parallel_sort_inplace(cont_of(v,1),x_less,c)) XF(10,"parallel_sort_inplace(failing continuation)",ba::parallel_sort_inplace(fail_cont<V>(1),x_less,c)) XF(11,"parallel_sort2(failing continuation)",ba::parallel_sort2(fail_cont<V>(1),x_less,c)) } }
