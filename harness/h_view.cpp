// Harness for the viewer's printing of elements.
#include "hx.hpp"

#include "fast_ber/util/BerView.hpp"

using namespace fast_ber;
using namespace hx;

// k constructed elements, each but the innermost containing the next.
static Bytes nest(size_t k, uint8_t head)
{
    Bytes back;     // reversed
    for (size_t i = 0; i < k; i++)
    {
        size_t n = back.size();
        if (n < 128) back.push_back(static_cast<uint8_t>(n));
        else
        {
            uint8_t c = 0;
            for (size_t m = n; m; m >>= 8, c++) back.push_back(static_cast<uint8_t>(m));
            back.push_back(static_cast<uint8_t>(0x80 + c));
        }
        back.push_back(head);
    }
    return Bytes(back.rbegin(), back.rend());
}

int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    t["view"] = [](const Args& a, Ev& e) {
        Bytes b = unhex(a[0]);
        setenv("TZ", a[1].c_str(), 1);      // and how far it is east of Greenwich, in a[2]
        Exact x(b);
        BerView v(absl::Span<const uint8_t>(x.p, x.n));
        std::ostringstream o;
        o << v;
        // a view of a view, and a second print, are no different
        BerView w(v);
        std::ostringstream p;
        p << w;
        e.bytes("b", b).i("tz", std::stoll(a[2])).i("rc", v.is_valid() ? 0 : 255).b("again", p.str() == o.str()).str("out", o.str());
    };
    t["deep"] = [](const Args& a, Ev& e) {
        size_t k = std::stoul(a[0]);
        Bytes b = nest(k, static_cast<uint8_t>(std::stoi(a[1])));
        Exact x(b);
        BerView v(absl::Span<const uint8_t>(x.p, x.n));
        std::ostringstream o;
        o << v;
        std::string s = o.str();
        long long elements = 0, opened = 0, closed = 0;
        for (size_t p = 0; (p = s.find("\"length\"", p)) != std::string::npos; p++) elements++;
        for (char c : s) { opened += c == '['; closed += c == ']'; }
        e.i("k", static_cast<long long>(k)).i("rc", v.is_valid() ? 0 : 255).i("elements", elements).i("opened", opened).i("closed", closed);
    };
    return run(argc, argv, t);
}
