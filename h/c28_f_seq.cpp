#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include "excm.h"
MC_SCENARIO(x_select,1,2,F_SEQ){ int form=mc::choose(4); auto x=x_in(4); auto v=x.v; long c=x.c; V w=v,o(2*v.size()); int m=v.empty()?0:mc::choose(v.size()+1); if(form==3){ std::sort(v.begin(),v.end()); std::sort(w.begin(),w.end()); } switch(form){
 XF(0,"parallel_quicksort",ba::parallel_quicksort(B,EN,x_less,c,1)) XF(1,"parallel_partial_sort",ba::parallel_partial_sort(B,B+m,EN,x_less,c,1)) XF(2,"parallel_nth_element",ba::parallel_nth_element(B,B+m,EN,x_less,c,1)) XF(3,"parallel_merge",ba::parallel_merge(B,EN,w.begin(),w.end(),o.begin(),x_less,c)) } }
