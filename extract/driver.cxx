// Instantiates the header templates that no translation unit of the library
// uses itself, so that the analysis sees their bodies with resolved types.
#include "cornerstone.hxx"

using namespace cornerstone;


void vp_driver(async_result<bool>& r, rpc_result& q, bool& b, ptr<std::exception>& e, ptr<resp_msg>& m, ptr<rpc_exception>& x)
{
    async_result<bool>::handler_type h;
    r.when_ready(h);
    r.set_result(b, e);
    r.get();
    rpc_result::handler_type g;
    q.when_ready(g);
    q.set_result(m, x);
    q.get();
}
