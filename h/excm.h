// short forms for the call lists; included after every other header
#define XF(n,name,...) case n: x_run(name,x,[&]{ return __VA_ARGS__; }); break;
#define V std::vector<int>
#define B v.begin()
#define EN v.end()
