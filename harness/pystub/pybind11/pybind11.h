// Stand-in for pybind11 (not installed here): keeps what a binding source registers, and calls it with Python-like values
// by pybind11's rules (two passes over the overloads, the same conversions, the same exceptions).
#pragma once
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <vector>
#include <cmath>
#include <limits>
#include <Eigen/Core>

namespace pybind11
{
    struct Type;
    struct Val;
    using Args = std::vector<Val>;
    using Kw = std::map<std::string, Val>;

    // what Python code sees raised
    struct PyError : std::runtime_error
    {
        std::string kind;
        PyError(const std::string &k, const std::string &m) : std::runtime_error(k + ": " + m), kind(k) {}
    };
    // a Python exception on its way through C++
    struct error_already_set : std::runtime_error { using std::runtime_error::runtime_error; };
    struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };

    struct Arr
    {
        int dims = 1;
        long r = 0, c = 1;
        std::vector<double> d;          // row after row
        double at(long i, long j) const { return d[(size_t)(i * c + j)]; }
    };
    struct Val
    {
        enum Kind { None, Bool, Int, Float, Str, Array, Func, Inst, Dict, List, Delta } k = None;
        long long i = 0;                // Bool, Int; microseconds of a Delta
        double f = 0;
        std::string s;
        std::shared_ptr<Arr> a;
        std::function<Val(Args)> fn;
        Type *t = nullptr;
        std::shared_ptr<void> p;
        std::vector<std::pair<Val, Val>> dict;
        std::vector<Val> list;
        static Val none() { return Val(); }
        static Val boolean(bool b) { Val v; v.k = Bool; v.i = b; return v; }
        static Val integer(long long b) { Val v; v.k = Int; v.i = b; return v; }
        static Val real(double b) { Val v; v.k = Float; v.f = b; return v; }
        static Val str(std::string b) { Val v; v.k = Str; v.s = std::move(b); return v; }
        bool is_none() const { return k == None; }
        Val attr(const std::string &name) const;
        void setattr(const std::string &name, const Val &v);
        Val call(const std::string &name, const Args &a = {}, const Kw &kw = {}) const;
    };
    using object = Val;

    using Fn = std::function<bool(const Args &, const Kw &, bool, Val &)>;      // false: these arguments are not for it
    struct Overload { Fn f; std::vector<std::string (*)()> sig; size_t defaults = 0; };
    struct Type
    {
        std::string name;
        std::type_index id = typeid(void);
        std::map<std::string, std::vector<Overload>> methods, statics;
        std::map<std::string, Fn> get, set;
        std::map<std::string, Val> consts;
        std::vector<std::pair<std::string, Val>> entries;                       // of an enumeration
        std::vector<std::pair<std::type_index, std::function<void *(void *)>>> bases;
        bool isenum = false;
    };
    struct Registry
    {
        std::map<std::type_index, std::shared_ptr<Type>> types;
        std::map<std::string, Type *> byName;
        std::map<std::string, std::vector<Overload>> functions;
        std::map<std::string, Val> globals;
        Type *find(std::type_index t) { auto q = types.find(t); return q == types.end() ? nullptr : q->second.get(); }
    };
    inline Registry &registry() { static Registry r; return r; }

    inline Val dispatch(const std::string &what, const std::vector<Overload> &o, const Args &a, const Kw &kw)
    {
        Val out;
        try
        {
            if (o.size() > 1)
                for (auto &f : o)
                    if (f.f(a, kw, false, out)) return out;
            for (auto &f : o)
                if (f.f(a, kw, true, out)) return out;
        }
        catch (const PyError &) { throw; }
        catch (const cast_error &e) { throw PyError("RuntimeError", e.what()); }
        catch (const value_error &e) { throw PyError("ValueError", e.what()); }
        catch (const type_error &e) { throw PyError("TypeError", e.what()); }
        catch (const error_already_set &e) { throw PyError("Exception", e.what()); }
        catch (const std::invalid_argument &e) { throw PyError("ValueError", e.what()); }
        catch (const std::exception &e) { throw PyError("RuntimeError", e.what()); }
        catch (...) { throw PyError("RuntimeError", "Caught an unknown exception!"); }
        throw PyError("TypeError", what + "(): incompatible function arguments");
    }
    inline Val Val::attr(const std::string &name) const
    {
        if (k == Inst)
        {
            auto g = t->get.find(name);
            Val out;
            if (g != t->get.end())
            {
                if (g->second({*this}, {}, true, out)) return out;
                throw PyError("TypeError", t->name + "." + name);
            }
            for (auto &b : t->bases)
                if (Type *bt = registry().find(b.first))
                    if (bt->get.count(name)) { Val v = *this; v.t = bt; v.p = std::shared_ptr<void>(p, b.second(p.get())); return v.attr(name); }
        }
        throw PyError("AttributeError", (k == Inst ? t->name : std::string("object")) + " has no attribute " + name);
    }
    inline void Val::setattr(const std::string &name, const Val &v)
    {
        Val out;
        if (k == Inst)
        {
            auto g = t->set.find(name);
            if (g != t->set.end())
            {
                if (g->second({*this, v}, {}, true, out)) return;
                throw PyError("TypeError", t->name + "." + name);
            }
            for (auto &b : t->bases)
                if (Type *bt = registry().find(b.first))
                    if (bt->set.count(name)) { Val w = *this; w.t = bt; w.p = std::shared_ptr<void>(p, b.second(p.get())); w.setattr(name, v); return; }
        }
        throw PyError("AttributeError", (k == Inst ? t->name : std::string("object")) + " has no settable attribute " + name);
    }
    inline Val Val::call(const std::string &name, const Args &a, const Kw &kw) const
    {
        if (k != Inst) throw PyError("AttributeError", name);
        auto m = t->methods.find(name);
        if (m != t->methods.end())
        {
            Args b = {*this};
            b.insert(b.end(), a.begin(), a.end());
            return dispatch(t->name + "." + name, m->second, b, kw);
        }
        auto s = t->statics.find(name);
        if (s != t->statics.end()) return dispatch(t->name + "." + name, s->second, a, kw);
        for (auto &b : t->bases)
            if (Type *bt = registry().find(b.first)) { Val v = *this; v.t = bt; v.p = std::shared_ptr<void>(p, b.second(p.get())); return v.call(name, a, kw); }
        throw PyError("AttributeError", t->name + " has no attribute " + name);
    }
    inline Type &type(const std::string &name)
    {
        auto q = registry().byName.find(name);
        if (q == registry().byName.end()) throw PyError("AttributeError", "the module has no attribute " + name);
        return *q->second;
    }
    inline Val construct(const std::string &name, const Args &a = {}, const Kw &kw = {})
    {
        Type &t = type(name);
        auto m = t.methods.find("__init__");
        if (m == t.methods.end()) throw PyError("TypeError", name + ": No constructor defined!");
        return dispatch(name, m->second, a, kw);
    }
    inline Val callstatic(const std::string &cls, const std::string &name, const Args &a = {})
    {
        Type &t = type(cls);
        auto m = t.statics.find(name);
        if (m == t.statics.end()) throw PyError("AttributeError", cls + " has no attribute " + name);
        return dispatch(cls + "." + name, m->second, a, {});
    }
    inline Val constant(const std::string &cls, const std::string &name)
    {
        Type &t = type(cls);
        for (auto &e : t.entries) if (e.first == name) return e.second;
        throw PyError("AttributeError", cls + " has no attribute " + name);
    }

    enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

    // ---------------------------------------------------------------- conversions
    namespace detail
    {
        template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

        template <class T, class = void> struct caster      // a registered class or enumeration
        {
            using B = std::remove_pointer_t<T>;
            std::shared_ptr<void> keep;
            B *ptr = nullptr;
            static std::string name()
            {
                Type *t = registry().find(typeid(B));
                return t ? t->name : "?";
            }
            bool load(const Val &v, bool)
            {
                if (v.k == Val::None && std::is_pointer<T>::value) { ptr = nullptr; return true; }
                if (v.k != Val::Inst) return false;
                if (v.t->id == std::type_index(typeid(B))) { keep = v.p; ptr = (B *)v.p.get(); return true; }
                for (auto &b : v.t->bases)
                    if (b.first == std::type_index(typeid(B))) { keep = v.p; ptr = (B *)b.second(v.p.get()); return true; }
                return false;
            }
            template <class A> A pass()
            {
                if constexpr (std::is_pointer<bare<A>>::value) return ptr;
                else if constexpr (std::is_rvalue_reference<A>::value) return std::move(*ptr);
                else return *ptr;
            }
            static Val cast(const T &v)
            {
                Type *t = registry().find(typeid(B));
                if (!t) throw type_error("Unable to convert function return value to a Python type");
                Val r;
                r.k = Val::Inst;
                r.t = t;
                if constexpr (std::is_pointer<T>::value) r.p = std::shared_ptr<void>((void *)v, [](void *) {});
                else if constexpr (std::is_copy_constructible<B>::value) r.p = std::make_shared<B>(v);
                else throw cast_error("return_value_policy = copy, but type is non-copyable!");
                return r;
            }
        };
        template <class T> struct stored        // conversions that keep a value
        {
            T v{};
            template <class A> A pass()
            {
                if constexpr (std::is_lvalue_reference<A>::value) return v;
                else return static_cast<A &&>(v);
            }
        };
        template <> struct caster<bool> : stored<bool>
        {
            static std::string name() { return "bool"; }
            bool load(const Val &x, bool convert)
            {
                if (x.k == Val::Bool) { v = x.i != 0; return true; }
                if (!convert) return false;
                if (x.k == Val::None) { v = false; return true; }
                if (x.k == Val::Int) { v = x.i != 0; return true; }
                if (x.k == Val::Float) { v = x.f != 0; return true; }
                return false;
            }
            static Val cast(bool x) { return Val::boolean(x); }
        };
        template <class T> struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> : stored<T>
        {
            static std::string name() { return std::is_unsigned<T>::value ? "uint" : "int"; }
            bool load(const Val &x, bool)
            {
                if (x.k != Val::Int && x.k != Val::Bool) return false;          // never from a float
                if (std::is_unsigned<T>::value ? x.i < 0 || (unsigned long long)x.i > (unsigned long long)std::numeric_limits<T>::max()
                                               : x.i < (long long)std::numeric_limits<T>::min() || x.i > (long long)std::numeric_limits<T>::max())
                    return false;
                this->v = (T)x.i;
                return true;
            }
            static Val cast(T x) { return Val::integer((long long)x); }
        };
        template <class T> struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> : stored<T>
        {
            static std::string name() { return "float"; }
            bool load(const Val &x, bool convert)
            {
                if (x.k == Val::Float) { this->v = (T)x.f; return true; }
                if (!convert) return false;
                if (x.k == Val::Int || x.k == Val::Bool) { this->v = (T)x.i; return true; }
                if (x.k == Val::Array && x.a->d.size() == 1) { this->v = (T)x.a->d[0]; return true; }
                return false;
            }
            static Val cast(T x) { return Val::real((double)x); }
        };
        template <> struct caster<std::string> : stored<std::string>
        {
            static std::string name() { return "str"; }
            bool load(const Val &x, bool) { if (x.k != Val::Str) return false; v = x.s; return true; }
            static Val cast(const std::string &x) { return Val::str(x); }
        };
        template <> struct caster<const char *> : caster<std::string>
        {
            template <class A> A pass() { return v.c_str(); }
            static Val cast(const char *x) { return Val::str(x); }
        };
        template <> struct caster<Val> : stored<Val>
        {
            static std::string name() { return "object"; }
            bool load(const Val &x, bool) { v = x; return true; }
            static Val cast(const Val &x) { return x; }
        };

        // numbers given as a list, or as one: what numpy would make of it
        inline bool asArray(const Val &x, bool convert, Arr &a)
        {
            if (x.k == Val::Array) { a = *x.a; return true; }
            if (!convert || x.k != Val::List) return false;     // one number has no dimension: not accepted
            caster<double> n;
            a = Arr();
            if (!x.list.empty() && x.list[0].k == Val::List)
            {
                a.dims = 2;
                a.r = (long)x.list.size();
                a.c = (long)x.list[0].list.size();
                for (auto &row : x.list)
                {
                    if (row.k != Val::List || (long)row.list.size() != a.c) return false;
                    for (auto &e : row.list) { if (!n.load(e, true)) return false; a.d.push_back(n.v); }
                }
                return true;
            }
            a.r = (long)x.list.size();
            for (auto &e : x.list) { if (!n.load(e, true)) return false; a.d.push_back(n.v); }
            return true;
        }
        template <class M> Val fromEigen(const M &x)
        {
            Val v;
            v.k = Val::Array;
            v.a = std::make_shared<Arr>();
            v.a->dims = M::IsVectorAtCompileTime ? 1 : 2;
            v.a->r = M::IsVectorAtCompileTime ? x.size() : x.rows();
            v.a->c = M::IsVectorAtCompileTime ? 1 : x.cols();
            for (long i = 0; i < x.rows(); i++) for (long j = 0; j < x.cols(); j++) v.a->d.push_back((double)x(i, j));
            return v;
        }
        // pybind11's EigenProps::conformable
        template <class M> bool toEigen(const Arr &a, M &m)
        {
            constexpr long R = M::RowsAtCompileTime, C = M::ColsAtCompileTime;
            long r, c;
            if (a.dims == 2)
            {
                r = a.r;
                c = a.c;
                if ((R >= 0 && r != R) || (C >= 0 && c != C)) return false;
            }
            else
            {
                const long n = a.r;
                if (M::IsVectorAtCompileTime)
                {
                    constexpr long S = M::SizeAtCompileTime;
                    if (S >= 0 && S != n) return false;
                    r = R == 1 ? 1 : n;
                    c = R == 1 ? n : 1;
                }
                else if (R >= 0 && C >= 0) return false;
                else if (C >= 0) { if (C != n) return false; r = 1; c = n; }
                else { if (R >= 0 && R != n) return false; r = n; c = 1; }
            }
            m.resize(r, c);
            for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) m(i, j) = a.dims == 2 ? a.at(i, j) : a.d[(size_t)(i * c + j)];
            return true;
        }
        template <class S, int R, int C, int O, int MR, int MC> struct caster<Eigen::Matrix<S, R, C, O, MR, MC>> : stored<Eigen::Matrix<S, R, C, O, MR, MC>>
        {
            using M = Eigen::Matrix<S, R, C, O, MR, MC>;
            static std::string name() { return M::IsVectorAtCompileTime ? "vec" : "mat"; }
            bool load(const Val &x, bool convert) { Arr a; return asArray(x, convert, a) && toEigen(a, this->v); }
            static Val cast(const M &x) { return fromEigen(x); }
        };
        template <class P, int O, class S> struct caster<Eigen::Ref<P, O, S>>
        {
            using M = std::remove_const_t<P>;
            M v;
            std::unique_ptr<Eigen::Ref<P, O, S>> ref;
            static std::string name() { return M::IsVectorAtCompileTime ? "vec" : "mat"; }
            bool load(const Val &x, bool convert) { Arr a; if (!asArray(x, convert, a) || !toEigen(a, v)) return false; ref.reset(new Eigen::Ref<P, O, S>(v)); return true; }
            template <class A> A pass() { return *ref; }
            static Val cast(const Eigen::Ref<P, O, S> &x) { return fromEigen(M(x)); }
        };
        template <class T> struct caster<std::vector<T>> : stored<std::vector<T>>
        {
            static std::string name() { return "seq"; }
            bool load(const Val &x, bool convert)
            {
                this->v.clear();
                std::vector<Val> e;
                if (x.k == Val::List) e = x.list;
                else if (x.k == Val::Array && x.a->dims == 1) for (double d : x.a->d) e.push_back(Val::real(d));
                else return false;
                for (auto &q : e)
                {
                    caster<T> c;
                    if (!c.load(q, convert)) return false;
                    this->v.push_back(c.template pass<T>());
                }
                return true;
            }
            static Val cast(const std::vector<T> &x)
            {
                Val r;
                r.k = Val::List;
                for (const auto &q : x) r.list.push_back(caster<T>::cast(q));
                return r;
            }
        };
        template <class K, class T> struct caster<std::map<K, T>> : stored<std::map<K, T>>
        {
            static std::string name() { return "dict"; }
            bool load(const Val &x, bool convert)
            {
                if (x.k != Val::Dict) return false;
                this->v.clear();
                for (auto &q : x.dict)
                {
                    caster<K> a;
                    caster<T> b;
                    if (!a.load(q.first, convert) || !b.load(q.second, convert)) return false;
                    this->v.emplace(a.template pass<K>(), b.template pass<T>());
                }
                return true;
            }
            static Val cast(const std::map<K, T> &x)
            {
                Val r;
                r.k = Val::Dict;
                for (const auto &q : x) r.dict.push_back({caster<K>::cast(q.first), caster<T>::cast(q.second)});
                return r;
            }
        };
        template <class T> struct caster<std::optional<T>> : stored<std::optional<T>>
        {
            static std::string name() { return caster<T>::name() + "?"; }
            bool load(const Val &x, bool convert)
            {
                if (x.is_none()) { this->v.reset(); return true; }
                caster<T> c;
                if (!c.load(x, convert)) return false;
                this->v = c.template pass<T>();
                return true;
            }
            static Val cast(const std::optional<T> &x) { return x ? caster<T>::cast(*x) : Val(); }
        };
        // whole microseconds, the rest cut off
        template <class R, class P> struct caster<std::chrono::duration<R, P>> : stored<std::chrono::duration<R, P>>
        {
            using D = std::chrono::duration<R, P>;
            static std::string name() { return "timedelta"; }
            bool load(const Val &x, bool)
            {
                if (x.k == Val::Delta) { this->v = std::chrono::duration_cast<D>(std::chrono::microseconds(x.i)); return true; }
                if (x.k == Val::Float) { this->v = std::chrono::duration_cast<D>(std::chrono::duration<double>(x.f)); return true; }
                return false;
            }
            static Val cast(const D &x)
            {
                Val r;
                r.k = Val::Delta;
                const double s = std::chrono::duration<double>(x).count();
                r.i = std::fabs(s) < 1e12 ? (long long)std::chrono::duration_cast<std::chrono::microseconds>(x).count() : (s > 0 ? 1000000000000000000LL : -1000000000000000000LL);
                r.f = s;
                return r;
            }
        };
        template <class R, class... A> struct caster<std::function<R(A...)>> : stored<std::function<R(A...)>>
        {
            static std::string name() { return "callable"; }
            bool load(const Val &x, bool convert)
            {
                if (x.is_none()) { this->v = nullptr; return convert; }
                if (x.k != Val::Func) return false;
                auto fn = x.fn;
                this->v = [fn](A... a) -> R {
                    Val out = fn(Args{caster<bare<A>>::cast(a)...});
                    if constexpr (!std::is_void<R>::value)
                    {
                        caster<bare<R>> c;
                        if (!c.load(out, true)) throw cast_error("Unable to cast Python instance to C++ type");
                        return c.template pass<bare<R>>();
                    }
                };
                return true;
            }
            static Val cast(const std::function<R(A...)> &f)
            {
                Val r;
                if (!f) return r;
                r.k = Val::Func;
                r.fn = [f](Args a) { return run(f, a, std::index_sequence_for<A...>()); };
                return r;
            }
            template <size_t... I> static Val run(const std::function<R(A...)> &f, const Args &a, std::index_sequence<I...>)
            {
                if (a.size() != sizeof...(A)) throw PyError("TypeError", "incompatible function arguments");
                std::tuple<caster<bare<A>>...> c;
                if (!(std::get<I>(c).load(a[I], true) && ... && true)) throw PyError("TypeError", "incompatible function arguments");
                if constexpr (std::is_void<R>::value) { f(std::get<I>(c).template pass<A>()...); return Val(); }
                else return caster<bare<R>>::cast(f(std::get<I>(c).template pass<A>()...));
            }
        };

        // ---- signatures
        template <class F> struct sigof : sigof<decltype(&F::operator())> {};
        template <class R, class... A> struct sigof<R (*)(A...)> { using ret = R; using args = std::tuple<A...>; static constexpr bool member = false; };
        template <class R, class... A> struct sigof<R (*)(A...) noexcept> : sigof<R (*)(A...)> {};
        template <class R, class... A> struct sigof<R(A...)> : sigof<R (*)(A...)> {};
        template <class C, class R, class... A> struct sigof<R (C::*)(A...)> { using ret = R; using args = std::tuple<A...>; using cls = C; static constexpr bool member = true; };
        template <class C, class R, class... A> struct sigof<R (C::*)(A...) const> : sigof<R (C::*)(A...)> {};
        template <class C, class R, class... A> struct sigof<R (C::*)(A...) noexcept> : sigof<R (C::*)(A...)> {};
        template <class C, class R, class... A> struct sigof<R (C::*)(A...) const noexcept> : sigof<R (C::*)(A...)> {};
    }

    // ---------------------------------------------------------------- extras
    struct arg_v;
    struct arg
    {
        std::string name;
        bool noconv = false;
        constexpr explicit arg(const char *n) : name(n) {}
        template <class T> arg_v operator=(T &&v) const;
        arg &noconvert(bool f = true) { noconv = f; return *this; }
        arg &none(bool = true) { return *this; }
    };
    struct arg_v : arg
    {
        Val value;
        arg_v(const arg &a, Val v) : arg(a), value(std::move(v)) {}
        template <class T> arg_v(const char *n, T &&v, const char * = nullptr) : arg(n), value(detail::caster<detail::bare<T>>::cast(v)) {}
    };
    template <class T> arg_v arg::operator=(T &&v) const
    {
        if constexpr (std::is_same<detail::bare<T>, std::nullptr_t>::value) return arg_v(*this, Val());
        else return arg_v(*this, detail::caster<std::decay_t<T>>::cast(v));
    }
    inline namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
    template <class...> struct call_guard {};
    template <size_t, size_t> struct keep_alive {};
    template <class...> struct base {};
    struct doc { doc(const char *) {} };
    struct name { name(const char *) {} };
    struct is_method { template <class T> is_method(T &&) {} };
    struct is_operator {};
    struct dynamic_attr {};
    struct module_local { module_local(bool = true) {} };
    struct arithmetic {};
    struct kw_only {};
    struct pos_only {};
    struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
    struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
    struct nodelete { template <class T> void operator()(T *) {} };

    namespace detail
    {
        struct Named { std::string name; bool has = false, noconv = false; Val def; };
        inline void extra(std::vector<Named> &o, const arg_v &a) { o.push_back({a.name, true, a.noconv, a.value}); }
        inline void extra(std::vector<Named> &o, const arg &a) { o.push_back({a.name, false, a.noconv, Val()}); }
        template <class T> void extra(std::vector<Named> &, const T &) {}

        template <class R, class F, class... A, size_t... I>
        Overload wrap(F f, std::tuple<A...> *, std::index_sequence<I...>, bool method, std::vector<Named> names)
        {
            Overload o;
            o.sig = {&caster<bare<A>>::name...};
            if (method) o.sig.erase(o.sig.begin());
            for (auto &n : names) o.defaults += n.has;
            const size_t skip = method ? 1 : 0;
            o.f = [f, names, skip](const Args &in, const Kw &kw, bool convert, Val &out) -> bool {
                constexpr size_t N = sizeof...(A);
                if (in.size() > N) return false;
                Args a = in;
                bool nc[N + 1] = {};
                size_t used = 0;
                for (size_t k = 0; k < N; k++)
                {
                    const Named *n = k >= skip && k - skip < names.size() ? &names[k - skip] : nullptr;
                    if (n) nc[k] = n->noconv;
                    if (k < in.size()) { if (n && kw.count(n->name)) return false; continue; }
                    if (n && kw.count(n->name)) { a.push_back(kw.at(n->name)); used++; }
                    else if (n && n->has) a.push_back(n->def);
                    else return false;
                }
                if (used != kw.size()) return false;
                std::tuple<caster<bare<A>>...> c;
                (void)c; (void)nc; (void)convert;
                if (!(std::get<I>(c).load(a[I], convert && !nc[I]) && ... && true)) return false;
                if constexpr (std::is_void<R>::value) { f(std::get<I>(c).template pass<A>()...); out = Val(); }
                else out = caster<bare<R>>::cast(f(std::get<I>(c).template pass<A>()...));
                return true;
            };
            return o;
        }
        template <class R, class C, class G, class... A> Overload wrapm(G g, std::tuple<A...> *, const std::vector<Named> &names)
        {
            auto h = [g](C &self, A... a) -> R { return g(self, std::forward<A>(a)...); };
            return wrap<R>(h, (std::tuple<C &, A...> *)nullptr, std::make_index_sequence<sizeof...(A) + 1>(), true, names);
        }
        template <class C, class F, class... E> Overload make(F f, bool method, const E &...e)
        {
            std::vector<Named> names;
            (extra(names, e), ...);
            using S = sigof<std::decay_t<F>>;
            using R = typename S::ret;
            using T = typename S::args;
            if constexpr (std::is_member_function_pointer<std::decay_t<F>>::value)
            {
                auto g = [f](C &self, auto &&...a) -> R { return (self.*f)(std::forward<decltype(a)>(a)...); };
                return wrapm<R, C>(g, (T *)nullptr, names);
            }
            else return wrap<R>(f, (T *)nullptr, std::make_index_sequence<std::tuple_size<T>::value>(), method, names);
        }
        template <class... A> struct ctor {};
        template <class F> struct factory { F f; };
        template <class... Args> struct overload_cast_impl
        {
            template <class R> constexpr auto operator()(R (*pf)(Args...)) const noexcept -> decltype(pf) { return pf; }
            template <class R, class C> constexpr auto operator()(R (C::*pmf)(Args...), std::false_type = {}) const noexcept -> decltype(pmf) { return pmf; }
            template <class R, class C> constexpr auto operator()(R (C::*pmf)(Args...) const, std::true_type) const noexcept -> decltype(pmf) { return pmf; }
        };
    }
    template <class... Args> static constexpr detail::overload_cast_impl<Args...> overload_cast{};
    static constexpr auto const_ = std::true_type{};
    template <class... A> detail::ctor<A...> init() { return {}; }
    template <class F> detail::factory<F> init(F f) { return {f}; }

    struct module_;
    inline void put(module_ &, const std::string &n, Type *t) { registry().byName[n] = t; }

    struct accessor
    {
        std::string key;
        template <class T> void operator=(const T &v) { registry().globals[key] = detail::caster<std::decay_t<const T &>>::cast(v); }
    };
    struct docref { template <class T> void operator=(const T &) {} };
    struct module_
    {
        template <class F, class... E> module_ &def(const char *n, F &&f, const E &...e)
        {
            registry().functions[n].push_back(detail::make<int>(std::decay_t<F>(f), false, e...));
            return *this;
        }
        accessor attr(const char *n) { return {n}; }
        docref doc() { return {}; }
        module_ &def_submodule(const char *, const char * = nullptr) { return *this; }
    };
    using module = module_;

    template <class T, class... O> struct class_
    {
        Type *t;
        template <class B> void addBase()
        {
            if constexpr (std::is_base_of<B, T>::value && !std::is_same<B, T>::value)
                t->bases.push_back({typeid(B), [](void *p) -> void * { return static_cast<B *>((T *)p); }});
        }
        template <class S, class... E> class_(S &&m, const char *n, const E &...)
        {
            auto &slot = registry().types[typeid(T)];
            slot = std::make_shared<Type>();
            t = slot.get();
            t->name = n;
            t->id = typeid(T);
            (addBase<O>(), ...);
            put(m, n, t);
        }
        template <class F, class... E> class_ &def(const char *n, F &&f, const E &...e)
        {
            t->methods[n].push_back(detail::make<T>(std::decay_t<F>(f), true, e...));
            return *this;
        }
        template <class... A, class... E> class_ &def(const detail::ctor<A...> &, const E &...e)
        {
            Type *ty = t;
            return made([](A... a) { return new T(std::forward<A>(a)...); }, (std::tuple<A...> *)nullptr, ty, e...);
        }
        template <class F, class... E> class_ &def(const detail::factory<F> &f, const E &...e)
        {
            return made(f.f, (typename detail::sigof<std::decay_t<F>>::args *)nullptr, t, e...);
        }
        template <class F, class... A, class... E> class_ &made(F f, std::tuple<A...> *, Type *ty, const E &...e)
        {
            std::vector<detail::Named> names;
            (detail::extra(names, e), ...);
            auto g = [f, ty](A... a) -> Val {
                Val v;
                v.k = Val::Inst;
                v.t = ty;
                using R = decltype(f(std::forward<A>(a)...));
                if constexpr (std::is_pointer<R>::value) v.p = std::shared_ptr<T>(f(std::forward<A>(a)...));
                else if constexpr (std::is_same<R, T>::value) v.p = std::shared_ptr<T>(new T(f(std::forward<A>(a)...)));
                else v.p = std::shared_ptr<T>(f(std::forward<A>(a)...));      // a smart pointer
                return v;
            };
            t->methods["__init__"].push_back(detail::wrap<Val>(g, (std::tuple<A...> *)nullptr, std::make_index_sequence<sizeof...(A)>(), false, names));
            return *this;
        }
        template <class F, class... E> class_ &def_static(const char *n, F &&f, const E &...e)
        {
            t->statics[n].push_back(detail::make<T>(std::decay_t<F>(f), false, e...));
            return *this;
        }
        template <class C, class D, class... E> class_ &def_readonly(const char *n, const D C::*pm, const E &...)
        {
            t->get[n] = detail::make<T>([pm](const T &c) -> const D & { return c.*pm; }, true).f;
            return *this;
        }
        template <class C, class D, class... E> class_ &def_readwrite(const char *n, D C::*pm, const E &...)
        {
            t->get[n] = detail::make<T>([pm](const T &c) -> const D & { return c.*pm; }, true).f;
            t->set[n] = detail::make<T>([pm](T &c, const D &v) { c.*pm = v; }, true).f;
            return *this;
        }
        template <class F, class... E> class_ &def_property_readonly(const char *n, const F &f, const E &...)
        {
            if constexpr (std::is_member_object_pointer<F>::value) return def_readonly(n, f);
            else t->get[n] = detail::make<T>(f, true).f;
            return *this;
        }
        template <class F, class G, class... E> class_ &def_property(const char *n, const F &f, const G &g, const E &...)
        {
            t->get[n] = detail::make<T>(f, true).f;
            t->set[n] = detail::make<T>(g, true).f;
            return *this;
        }
    };

    template <class T> struct enum_
    {
        Type *t;
        template <class S, class... E> enum_(S &&m, const char *n, const E &...)
        {
            auto &slot = registry().types[typeid(T)];
            slot = std::make_shared<Type>();
            t = slot.get();
            t->name = n;
            t->id = typeid(T);
            t->isenum = true;
            put(m, n, t);
        }
        enum_ &value(const char *n, T v, const char * = nullptr)
        {
            for (auto &e : t->entries) if (e.first == n) throw value_error(std::string("element already exists: ") + n);
            Val x;
            x.k = Val::Inst;
            x.t = t;
            x.p = std::make_shared<T>(v);
            x.i = (long long)v;
            t->entries.push_back({n, x});
            return *this;
        }
        enum_ &export_values()
        {
            for (auto &e : t->entries) registry().globals[e.first] = e.second;
            return *this;
        }
    };
    // the name Python shows for an enumeration value: the first one registered for it
    template <class T> std::string enumName(const Val &v)
    {
        if (v.k != Val::Inst || !v.t->isenum) return "?";
        for (auto &e : v.t->entries) if (*(T *)e.second.p.get() == *(T *)v.p.get()) return e.first;
        return "???";
    }

    inline std::vector<std::function<void()>> &modules() { static std::vector<std::function<void()>> m; return m; }
    struct AddModule { explicit AddModule(std::function<void()> f) { modules().push_back(f); } };
}

#define PYBIND11_MODULE(name, variable, ...)                                                                     \
    static void pyinit_##name(::pybind11::module_ &);                                                            \
    static ::pybind11::AddModule pyadd_##name([] { ::pybind11::module_ m; pyinit_##name(m); });                   \
    static void pyinit_##name(::pybind11::module_ &variable)
#define PYBIND11_OVERRIDE(...)
