#define BOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
#include "sortel.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
MC_SCENARIO(spreadsort,1,2,F_SEQ){ auto in=seq_in(0,5,3); long c=seq_cut(in.size()); int form=mc::choose(7); auto f=less_of<int>(); auto v=in; std::vector<int> got; std::string ctx=SCTX+" form "+std::to_string(form);
  switch(form){ case 0: seq_ok([&]{ return ba::parallel_spreadsort(v.begin(),v.end(),f,c); }); got=v; break; case 1: got=seq_ok([&]{ return ba::parallel_spreadsort(std::vector<int>(in),f,c); }); break; case 2: got=seq_ok([&]{ return ba::parallel_spreadsort2(std::vector<int>(in),f,c); }); break;
   case 3: got=seq_ok([&]{ return ba::parallel_spreadsort(cont_of(std::vector<int>(in),1),f,c); }); break; case 4: seq_ok([&]{ return ba::parallel_spreadsort_inplace(v.begin(),v.end(),f,c); }); got=v; break; case 5: got=seq_ok([&]{ return ba::parallel_spreadsort_move_inplace(std::vector<int>(in),f,c); }); break; default: seq_ok([&]{ return ba::parallel_quick_spreadsort(v.begin(),v.end(),f,c,2); }); got=v; }
  check_sorted(got,in,false,"parallel_spreadsort",ctx); }
