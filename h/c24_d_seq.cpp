#include "sortel.h"
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
template<class T> static void merge_(int A,int B,int alpha){ auto a=seq_sorted_in(0,A,alpha); auto b=seq_sorted_in(0,B,alpha); long c=seq_cut(a.size()+b.size()); auto f=less_of<T>(); std::string ctx=show(a)+" and "+show(b)+" cutoff "+std::to_string(c);
  std::vector<T> x,y,o(a.size()+b.size()); for(size_t i=0;i<a.size();i++) x.push_back(mk_el<T>(a[i],i)); for(size_t i=0;i<b.size();i++) y.push_back(mk_el<T>(b[i],100+i)); auto x0=x,y0=y;
  CIt<T> xb(x.data(),0,x.size(),0),xe(x.data(),0,x.size(),x.size()),yb(y.data(),0,y.size(),0),ye(y.data(),0,y.size(),y.size()),ob(o.data(),0,o.size(),0);
  seq_ok([&]{ return ba::parallel_merge(xb,xe,yb,ye,ob,f,c); }); std::vector<T> want(o.size()); std::merge(x0.begin(),x0.end(),y0.begin(),y0.end(),want.begin(),f);
  for(size_t i=0;i<o.size();i++) MC_ASSERT(keyof(o[i])==keyof(want[i]) && idof(o[i])==idof(want[i]),"parallel_merge of %s gave %s, std::merge gives %s",ctx.c_str(),showe(o).c_str(),showe(want).c_str()); }
MC_SCENARIO(merge,1,2,F_SEQ){ merge_<E>(5,5,3); }
MC_SCENARIO(merge_long,0,1,F_SEQ){ merge_<N>(8,8,2); }
template<class T> static void psort(int N_,int alpha){ auto in=seq_in(0,N_,alpha); long c=seq_cut(in.size()); int m=mc::choose(in.size()+1); int thr=1+mc::choose(2); auto f=less_of<T>(); auto v=els<T>(in); std::string ctx=SCTX+" middle "+std::to_string(m);
  CIt<T> b(v.data(),0,v.size(),0),mi(v.data(),0,v.size(),m),e(v.data(),0,v.size(),v.size()); seq_ok([&]{ return ba::parallel_partial_sort(b,mi,e,f,c,(uint32_t)thr); });
  check_perm(v,in,"parallel_partial_sort",ctx); auto w=in; std::sort(w.begin(),w.end()); for(int i=0;i<m;i++) MC_ASSERT(keyof(v[i])==w[i],"parallel_partial_sort of %s gave %s",ctx.c_str(),showe(v).c_str()); }
MC_SCENARIO(partial_sort,0,1,F_SEQ){ psort<E>(5,3); }
MC_SCENARIO(partial_sort_nontrivial,0,1,F_SEQ){ psort<N>(4,4); }
template<class T> static void nth(int N_,int alpha){ auto in=seq_in(0,N_,alpha); long c=seq_cut(in.size()); int m=mc::choose(in.size()+1); int thr=1+mc::choose(2); auto f=less_of<T>(); auto v=els<T>(in); std::string ctx=SCTX+" nth "+std::to_string(m);
  CIt<T> b(v.data(),0,v.size(),0),mi(v.data(),0,v.size(),m),e(v.data(),0,v.size(),v.size()); seq_ok([&]{ return ba::parallel_nth_element(b,mi,e,f,c,(uint32_t)thr); });
  check_perm(v,in,"parallel_nth_element",ctx); if(m<(int)in.size()){ auto w=in; std::sort(w.begin(),w.end()); MC_ASSERT(keyof(v[m])==w[m],"parallel_nth_element of %s gave %s",ctx.c_str(),showe(v).c_str());
   for(int i=0;i<(int)v.size();i++) MC_ASSERT(i<m? keyof(v[i])<=w[m] : keyof(v[i])>=w[m],"parallel_nth_element of %s gave %s",ctx.c_str(),showe(v).c_str()); } }
MC_SCENARIO(nth_element,0,1,F_SEQ){ nth<E>(6,3); }
MC_SCENARIO(nth_element_nontrivial,0,1,F_SEQ){ nth<N>(4,4); }
