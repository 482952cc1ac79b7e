#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include "excm.h"
MC_SCENARIO(x_transform,1,2,F_SEQ){ int form=mc::choose(14); auto x=x_in(4); auto v=x.v; V w=v,o(v.size()); V const& cv=v; long c=x.c; int i=0; std::function<int()> gen=[&]{ th.at(i++); return 1; }; switch(form){
 XF(0,"parallel_transform",ba::parallel_transform(B,EN,o.begin(),x_inc,c)) XF(1,"parallel_transform(range&)",ba::parallel_transform(v,o.begin(),x_inc,c)) XF(2,"parallel_transform (2 iterators)",ba::parallel_transform(B,EN,w.begin(),o.begin(),x_inc2,c)) XF(3,"parallel_transform (2 ranges)",ba::parallel_transform(v,w,o.begin(),x_inc2,c))
 XF(4,"parallel_generate",ba::parallel_generate(B,EN,gen,c)) XF(5,"parallel_generate(range&)",ba::parallel_generate(cv,gen,c)) XF(6,"parallel_generate(moved range)",ba::parallel_generate(V(v),gen,c)) XF(7,"parallel_generate(continuation)",ba::parallel_generate(cont_of(v,1),gen,c)) XF(8,"parallel_generate(failing continuation)",ba::parallel_generate(fail_cont<V>(1),gen,c))
 XF(9,"parallel_copy_if",ba::parallel_copy_if(B,EN,o.begin(),x_odd,c)) XF(10,"parallel_remove_copy_if",ba::parallel_remove_copy_if(B,EN,o.begin(),x_odd,c)) XF(11,"parallel_copy(failing continuation)",ba::parallel_copy(fail_cont<V>(1),o.begin(),c)) XF(12,"parallel_fill(failing continuation)",ba::parallel_fill(fail_cont<V>(1),5,c)) XF(13,"parallel_reverse(failing continuation)",ba::parallel_reverse(fail_cont<V>(1),c)) } }
MC_SCENARIO(x_replace,1,2,F_SEQ){ int form=mc::choose(8); auto x=x_in(4); auto v=x.v; V o(v.size()); V const& cv=v; long c=x.c; switch(form){
 XF(0,"parallel_replace_if",ba::parallel_replace_if(B,EN,x_odd,9,c)) XF(1,"parallel_replace_if(moved range)",ba::parallel_replace_if(V(v),x_odd,9,c)) XF(2,"parallel_replace_if(continuation)",ba::parallel_replace_if(cont_of(v,1),x_odd,9,c)) XF(3,"parallel_replace_if(failing continuation)",ba::parallel_replace_if(fail_cont<V>(1),x_odd,9,c))
 XF(4,"parallel_replace_copy_if",ba::parallel_replace_copy_if(B,EN,o.begin(),x_odd,9,c)) XF(5,"parallel_replace_copy_if(continuation)",ba::parallel_replace_copy_if(cont_of(v,1),o.begin(),x_odd,9,c)) XF(6,"parallel_replace_copy_if(failing continuation)",ba::parallel_replace_copy_if(fail_cont<V>(1),o.begin(),x_odd,9,c)) XF(7,"parallel_replace(failing continuation)",ba::parallel_replace(fail_cont<V>(1),1,9,c)) } }
