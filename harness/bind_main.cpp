// What the Python module offers.  usage: bind_driver SCRIPT TRACE (the script says nothing)
#include "hx.hpp"
#include <pybind11/pybind11.h>
int main(int argc, char **argv)
{
    namespace py = pybind11;
    if (argc < 3) return 77;
    hx::out() = std::fopen(argv[2], "w");
    std::string died;
    try { for (auto &f : py::modules()) f(); }
    catch (const std::exception &e) { died = e.what(); }
    hx::Ev b;
    b.str("op", "load").i("i", 0).i("ok", died.empty());
    hx::emit(b);
    auto sig = [](const std::vector<std::string (*)()> &v) { std::vector<std::string> q; for (auto s : v) q.push_back("\"" + s() + "\""); return hx::Ev::list(q); };
    for (auto &kv : py::registry().byName)
    {
        auto &t = *kv.second;
        auto defs = [&](const std::map<std::string, std::vector<py::Overload>> &m, long st) {
            for (auto &q : m)
                for (auto &o : q.second)
                {
                    hx::Ev e;
                    e.str("op", "def").i("i", 0).str("cls", kv.first).str("name", q.first).i("static", st).raw("sig", sig(o.sig)).i("dflt", (long)o.defaults);
                    hx::emit(e);
                }
        };
        defs(t.methods, 0);
        defs(t.statics, 1);
        for (auto &g : t.get)
        {
            hx::Ev e;
            e.str("op", "attr").i("i", 0).str("cls", kv.first).str("name", g.first).i("rw", (long)t.set.count(g.first));
            hx::emit(e);
        }
        for (auto &g : t.entries)
        {
            hx::Ev e;
            e.str("op", "value").i("i", 0).str("cls", kv.first).str("name", g.first);
            hx::emit(e);
        }
    }
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
}
