// C21 (engine C): all pairs of topics up to a length over small alphabets, against segment-wise prefix matching
#include "common.h"
#include <boost/asynchronous/notification/topics.hpp>
#include <string>
#include <vector>
namespace bs=boost::asynchronous::subscription;
static std::vector<std::string> words(std::string const& alpha,int len){ std::vector<std::string> r{""}; size_t b=0; for(int l=0;l<len;l++){ size_t e=r.size(); for(size_t i=b;i<e;i++) for(char c:alpha) r.push_back(r[i]+c); b=e; } return r; }
static std::vector<std::string> segs(std::string s,char sep){ while(!s.empty()&&s.back()==sep) s.pop_back(); std::vector<std::string> r; if(s.empty()) return r; std::string cur; for(char c:s){ if(c==sep){ r.push_back(cur); cur.clear(); } else cur+=c; } r.push_back(cur); return r; }
static bool want(std::vector<std::string> const& sub,std::vector<std::string> const& pub,char wild){ if(sub.size()>pub.size()) return false; for(size_t i=0;i<sub.size();i++) if(!(sub[i]==std::string(1,wild))&&sub[i]!=pub[i]) return false; return true; }
template<char S,char W> struct Tab { using T=bs::channel_topic<S,W>; std::vector<std::string> w; std::vector<std::vector<std::string>> s; std::vector<T> t;
  Tab(std::string const& a,int len):w(words(a,len)){ for(auto&x:w){ s.push_back(segs(x,S)); t.emplace_back(x); } } };
template<char S,char W> static void channel(std::string const& alpha,int len){ static Tab<S,W> tab(alpha,len); 
  // one execution per block of subscribed topics, all published ones inside
  int blocks=64; int b=mc::choose(blocks); auto&d=tab;
  for(size_t i=b;i<d.w.size();i+=blocks){ using T=bs::channel_topic<S,W>; std::string moved=d.w[i]; T const sub(d.w[i]), sub2(std::move(moved));
    MC_ASSERT(sub.to_string()==d.w[i]&&to_string(sub2)==d.w[i],"to_string of \"%s\" is \"%s\"",d.w[i].c_str(),to_string(sub2).c_str());
    for(size_t j=0;j<d.w.size();j++){ bool x=want(d.s[i],d.s[j],W); bool a=sub.matches(d.w[j]);
      MC_ASSERT(a==x,"channel topic \"%s\" %s published \"%s\" (separator %c wildcard %c)",d.w[i].c_str(),a?"matches":"does not match",d.w[j].c_str(),S,W);
      if(j%7==i%7||i==j){ bool c=sub2.matches(d.t[j]); MC_ASSERT(c==x,"channel topic \"%s\" %s published topic \"%s\" (separator %c wildcard %c)",d.w[i].c_str(),c?"matches":"does not match",d.w[j].c_str(),S,W);
        MC_ASSERT((sub==d.t[j])==(i==j)&&(sub!=d.t[j])==(i!=j),"channel topics \"%s\" and \"%s\" compare wrong",d.w[i].c_str(),d.w[j].c_str()); } } } }
MC_SCENARIO(channel_default,0,0,F_SEQ){ channel<'/','.'>("ab/.",6); }
MC_SCENARIO(channel_deep,0,0,F_SEQ){ channel<'/','.'>("a/.",7); }
MC_SCENARIO(channel_other,0,0,F_SEQ){ channel<':','*'>("a:*/",5); }
MC_SCENARIO(channel_deep_more,-1,0,F_SEQ){ channel<'/','.'>("ab/.",7); }
MC_SCENARIO(channel_deeper,-1,0,F_SEQ){ channel<'/','.'>("a/.",9); }
// whole segments of several characters, sharing prefixes
MC_SCENARIO(channel_segments,0,0,F_SEQ){ static std::vector<std::string> w; static std::vector<std::vector<std::string>> sg; if(w.empty()){ const char* seg[]={"",".","..",".a","A","AB","ABC"}; std::vector<std::string> cur{""}; for(int n=0;n<4;n++){ std::vector<std::string> nx; for(auto&p:cur) for(auto s:seg) nx.push_back(n?p+"/"+s:std::string(s)); cur=nx; if(n<3) w.insert(w.end(),cur.begin(),cur.end()); else for(size_t i=0;i<cur.size();i+=1) w.push_back(cur[i]); } for(auto&x:w) sg.push_back(segs(x,'/')); }
  int b=mc::choose(64); for(size_t i=b;i<w.size();i+=64){ bs::channel_topic<> t(w[i]); for(size_t j=0;j<w.size();j++){ bool x=want(sg[i],sg[j],'.'),a=t.matches(w[j]); MC_ASSERT(a==x,"channel topic \"%s\" %s published \"%s\"",w[i].c_str(),a?"matches":"does not match",w[j].c_str()); } } }
MC_SCENARIO(exact,0,0,F_SEQ){ static auto w=words("aB/.",4); int b=mc::choose(32); using T=bs::exact_topic<std::string>; for(size_t i=b;i<w.size();i+=32){ std::string m=w[i]; T const t(w[i]),t2(std::move(m)); MC_ASSERT(t.to_string()==w[i]&&to_string(t2)==w[i],"to_string of exact \"%s\"",w[i].c_str()); for(size_t j=0;j<w.size();j++){ T u(w[j]); bool x=i==j;
    MC_ASSERT(t.matches(w[j])==x&&t2.matches(u)==x&&(t==u)==x&&(t!=u)==!x,"exact topic \"%s\" against \"%s\": matches %d/%d == %d != %d",w[i].c_str(),w[j].c_str(),t.matches(w[j]),t2.matches(u),t==u,t!=u); } } }
MC_SCENARIO(none,0,0,F_SEQ){ bs::no_topic a,b; MC_ASSERT(a.matches(b)&&a==b&&!(a!=b)&&to_string(a)=="no_topic","no_topic"); }
