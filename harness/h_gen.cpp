// Runs commands against the generated types registered by the glue.
#include "hgen.hpp"
using namespace hx;
static void where(const Args& a, Ev& e)
{
    size_t dot = a[0].find('.');
    e.raw("t", "[\"" + a[0].substr(0, dot) + "\",\"" + a[0].substr(dot + 1) + "\"]");
}
int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    t["D"] = [](const Args& a, Ev& e) { where(a, e); Reg::types().at(a[0]).D(a, e); };
    t["E"] = [](const Args& a, Ev& e) { where(a, e); Reg::types().at(a[0]).E(a, e); };
    t["Q"] = [](const Args& a, Ev& e) { where(a, e); Reg::types().at(a[0]).Q(a, e); };
    t["P"] = [](const Args& a, Ev& e) { where(a, e); Reg::types().at(a[0]).P(a, e); };
    t["N"] = [](const Args& a, Ev& e) { where(a, e); e.i("k", std::stol(a[1])).raw("val", joct(static_cast<int64_t>(Reg::names().at(a[0]).at(std::stoi(a[1]))))); };
    t["V"] = [](const Args& a, Ev& e) { where(a, e); std::string o; Reg::values().at(a[0])(o); e.raw("v", o); };
    return run(argc, argv, t);
}
