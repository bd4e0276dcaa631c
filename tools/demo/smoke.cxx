#include "rig.hxx"
using namespace rig;
int main()
{
    node a(1, {1, 2, 3});
    a.log->fill({1, 1});
    a.start();
    auto r = a.vote(5, 2, 1, 2);
    CHECK(r->get_accepted() && a.term() == 5 && a.voted() == 2);
    a.lead();
    PASS();
}
