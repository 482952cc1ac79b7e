#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include "excm.h"
MC_SCENARIO(x_searches,1,2,F_SEQ){ int form=mc::choose(13); auto x=x_in(4); auto v=x.v; V w=v; V p(v.begin(),v.begin()+std::min<size_t>(v.size(),2)); long c=x.c; switch(form){
 XF(0,"parallel_adjacent_find",ba::parallel_adjacent_find(B,EN,x_eq,c)) XF(1,"parallel_equal",ba::parallel_equal(B,EN,w.begin(),x_eq,c)) XF(2,"parallel_mismatch",ba::parallel_mismatch(B,EN,w.begin(),x_eq,c)) XF(3,"parallel_lexicographical_compare",ba::parallel_lexicographical_compare(B,EN,w.begin(),w.end(),x_less,c))
 XF(4,"parallel_find_first_of",ba::parallel_find_first_of(B,EN,p.begin(),p.end(),x_eq,c)) XF(5,"parallel_find_first_of(failing continuation)",ba::parallel_find_first_of(B,EN,fail_cont<V>(1),x_eq,c)) XF(6,"parallel_find_first_of(continuation)",ba::parallel_find_first_of(B,EN,cont_of(p,1),x_eq,c))
 XF(7,"parallel_find_end",ba::parallel_find_end(B,EN,p.begin(),p.end(),x_eq,c)) XF(8,"parallel_find_end(continuation)",ba::parallel_find_end(B,EN,cont_of(p,1),x_eq,c))
 XF(9,"parallel_search",ba::parallel_search(B,EN,p.begin(),p.end(),x_eq,c)) XF(10,"parallel_search(continuation)",ba::parallel_search(B,EN,cont_of(p,1),x_eq,c)) XF(11,"parallel_search_n",ba::parallel_search_n(B,EN,2,1,x_eq,c)) XF(12,"parallel_search_n (1)",ba::parallel_search_n(B,EN,1,9,x_eq,c)) } }
