// elements whose copy assignment throws (moves do not)
#include "exc.h"
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include "excm.h"
struct TV { int v; TV(int x=0):v(x){} TV(TV const& o):v(o.v){} TV(TV&& o)noexcept:v(o.v){} TV& operator=(TV&& o)noexcept{ v=o.v; return *this; } TV& operator=(TV const& o){ th.at(o.v); v=o.v; return *this; } TV& operator++(){ th.at(v); ++v; return *this; } friend TV operator+(TV const& a,long n){ return TV(a.v+(int)n); } friend bool operator==(TV const& a,TV const& b){ return a.v==b.v; } friend bool operator<(TV const& a,TV const& b){ return a.v<b.v; } };
typedef std::vector<TV> W; typedef std::function<bool(TV const&)> T1; typedef std::function<bool(TV const&,TV const&)> T2;
static W tv(V const& v){ W w; for(int i:v) w.emplace_back(i); return w; }
MC_SCENARIO(x_assignments,1,2,F_SEQ){ int form=mc::choose(20); auto x=x_in(4); W v=tv(x.v), o(v.size()), o2(v.size()); W const& cv=v; long c=x.c; T1 odd1=[](TV const& a){ return a.v%2==1; }; T2 less=[](TV const&a,TV const&b){ return a.v<b.v; }, eq=[](TV const&a,TV const&b){ return a.v==b.v; }; std::function<TV(TV const&)> same=[](TV const&a){ return a; }; std::function<TV(TV const&,TV const&)> second=[](TV const&,TV const&b){ return b; };
 W s=v, m(v.size()*2); for(size_t i=0;i<s.size();i++) s[i].v=(int)i; int g=0; std::function<TV()> gen=[&]{ return TV(g++); };
 switch(form){ XF(0,"parallel_iota",ba::parallel_iota(B,EN,TV(0),c)) XF(1,"parallel_iota(moved range)",ba::parallel_iota(W(v),TV(0),c)) XF(2,"parallel_fill",ba::parallel_fill(B,EN,TV(1),c)) XF(3,"parallel_copy",ba::parallel_copy(B,EN,o.begin(),c)) XF(4,"parallel_copy(moved range)",ba::parallel_copy(W(v),o.begin(),c)) XF(5,"parallel_move",ba::parallel_move(B,EN,o.begin(),c)) XF(6,"parallel_reverse",ba::parallel_reverse(B,EN,c))
 XF(7,"parallel_swap_ranges",ba::parallel_swap_ranges(B,EN,o.begin(),c)) XF(8,"parallel_transform",ba::parallel_transform(B,EN,o.begin(),same,c)) XF(9,"parallel_generate",ba::parallel_generate(B,EN,gen,c)) XF(10,"parallel_replace_if",ba::parallel_replace_if(B,EN,odd1,TV(2),c)) XF(11,"parallel_copy_if",ba::parallel_copy_if(B,EN,o.begin(),odd1,c)) XF(12,"parallel_remove_copy_if",ba::parallel_remove_copy_if(B,EN,o.begin(),odd1,c))
 XF(13,"parallel_merge",ba::parallel_merge(s.begin(),s.end(),s.begin(),s.end(),m.begin(),less,c)) XF(14,"parallel_partition_copy",ba::parallel_partition_copy(B,EN,o.begin(),o2.begin(),odd1,c)) XF(15,"parallel_unique",ba::parallel_unique(B,EN,eq,c)) XF(16,"parallel_partial_sum",ba::parallel_partial_sum(B,EN,o.begin(),second,c)) XF(17,"parallel_inclusive_scan",ba::parallel_inclusive_scan(B,EN,o.begin(),TV(3),second,c)) XF(18,"parallel_exclusive_scan",ba::parallel_exclusive_scan(B,EN,o.begin(),TV(3),second,c))
 XF(19,"parallel_stable_partition",ba::parallel_stable_partition(B,EN,o.begin(),odd1,c)) } }
