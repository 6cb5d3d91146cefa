// Executes API scenarios against the real library on the virtual POSIX world
// and prints the API level traces (calls, returns, crashes, ...) observed.
#include "vposix.hpp"
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Helpers.hpp>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

using namespace EigenIPC;
using VLevel = Journal::VLevel;
typedef std::vector<long> Ints;

struct Op { std::string name; int obj; Ints a; std::vector<std::pair<int,int>> after; };
struct ObjSpec { std::string kind; int name; int dt, lay, safe, force, rows, cols, verbose; };
struct Explore { std::string mode; Ints a; vp::Plan plan; };
struct Scenario {
    std::string id; bool timed = false;
    std::map<int, std::pair<std::string, std::string>> names; // ns, base
    std::vector<int> procs;                                   // per actor
    std::map<int, ObjSpec> objs;
    std::map<int, std::string> strs;
    std::vector<std::vector<Op>> ops;                         // per actor
    std::vector<Explore> explore;
};

struct Res { std::string s; Ints v; };
static const long TORN = -99999;

struct Obj { int held = 0; virtual ~Obj() {} virtual Res op(const Op&, const Scenario&) = 0; };

static int flags_[16];

// The specification's values are small integers; the elements they stand for use every bit of their type (fractions,
// huge numbers, infinities and NaNs among them), so that nothing but an exact copy gets them back. 0 stands for 0.
template <typename T> using Bits = std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>;
template <typename U> static U mul() { return (U)0x9E3779B97F4A7C15ull; }
template <typename U> static U inv() { U m = mul<U>(), x = m; for (int i = 0; i < 6; i++) x *= 2 - m * x; return x; }
template <typename T> static T enc(long v) { Bits<T> b = (Bits<T>)v * mul<Bits<T>>(); T t; __builtin_memcpy(&t, &b, sizeof t); return t; }
template <> bool enc<bool>(long v) { return v % 2; }
template <typename T> static long dec(const T& v) { Bits<T> b; __builtin_memcpy(&b, &v, sizeof b); auto l = (std::make_signed_t<Bits<T>>)(b * inv<Bits<T>>()); return l > -90000 && l < 100000000 ? (long)l : TORN; }
template <> long dec<bool>(const bool& v) { unsigned char c; __builtin_memcpy(&c, &v, 1); return c; }

static Res B(bool b) { return {b ? "t" : "f", {}}; }

// element (i, j) of a block written with base value v and step st
template <typename T> static T elem(long v, long st, long i, long j, long cols) { return enc<T>(v + st * (i * cols + j)); }

template <typename E, typename T, int L>
static Res rw(E& e, const Op& o) {
    // w row col rows cols v step mode   /  r row col rows cols mode
    bool wr = o.name == "w";
    long row = o.a[0], col = o.a[1], n = o.a[2], m = o.a[3], mode = o.a.size() > (wr ? 6 : 4) ? o.a[wr ? 6 : 4] : 0;
    const T sent = (T)-77;
    Tensor<T, L> big(n * 2 + 3, m * 2 + 3);
    big.setConstant(sent);
    Tensor<T, L> mat(n, m);
    auto val = [&](long i, long j) { return elem<T>(o.a[4], o.a[5], i, j, m); };
    bool ok;
    if (wr) {
        for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) mat(i, j) = val(i, j);
        if (mode == 0) ok = e.write(mat, row, col);
        else if (mode == 1) { auto b = big.block(1, 2, n, m); b = mat; ok = e.write(b, row, col); }
        else {
            long in = mode == 2 ? 1 : 2;
            auto v = TensorView<T, L>(big.data(), n, m, DStrides(in == 1 ? big.outerStride() : big.outerStride() * 2, in));
            v = mat; const TensorView<T, L>& cv = v; ok = e.write(cv, row, col);
        }
        return B(ok);
    }
    mat.setConstant(sent);
    auto collect = [&](auto&& x) { Res r{"t", {}}; for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) r.v.push_back(dec<T>(x(i, j))); return r; };
    auto clean = [&](auto&& x) { for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) if (!(x(i, j) == sent)) return false; return true; };
    Res r;
    if (mode == 0) { ok = e.read(mat, row, col); if (!ok) return clean(mat) ? B(false) : Res{"dirty", {}}; return collect(mat); }
    long cnt = 0;
    auto outside = [&]() { for (long i = 0; i < big.rows(); i++) for (long j = 0; j < big.cols(); j++) if (!(big(i, j) == sent)) cnt++; return cnt; };
    if (mode == 1) {
        auto b = big.block(1, 2, n, m); ok = e.read(b, row, col);
        if (!ok) return clean(b) ? B(false) : Res{"dirty", {}};
        r = collect(b); b.setConstant(sent);
    } else {
        long in = mode == 2 ? 1 : 2;
        auto v = TensorView<T, L>(big.data(), n, m, DStrides(in == 1 ? big.outerStride() : big.outerStride() * 2, in));
        ok = e.read(v, row, col);
        if (!ok) return clean(v) ? B(false) : Res{"dirty", {}};
        r = collect(v); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) v(i, j) = sent;
    }
    if (outside()) return {"dirty", {}};
    return r;
}

// a view of a block of a matrix: what it shows, and what changes when it is assigned
template <typename T, int L> static Res view(const Ints& a) { // rows cols row col n m
    Tensor<T, L> mat(a[0], a[1]);
    for (long i = 0; i < a[0]; i++) for (long j = 0; j < a[1]; j++) mat(i, j) = enc<T>(i * a[1] + j + 1);
    auto v = helpers::createViewFrom<T, L>(mat, a[2], a[3], a[4], a[5]);
    if (v.rows() != a[4] || v.cols() != a[5]) return {"dirty", {}};
    Res r{"t", {}};
    for (long i = 0; i < a[4]; i++) for (long j = 0; j < a[5]; j++) r.v.push_back(dec<T>(v(i, j)));
    for (long i = 0; i < a[4]; i++) for (long j = 0; j < a[5]; j++) v(i, j) = enc<T>(101 + i * a[5] + j);
    for (long i = 0; i < a[0]; i++) for (long j = 0; j < a[1]; j++) r.v.push_back(dec<T>(mat(i, j)));
    return r;
}
static Res viewOf(const Ints& a) { // dt lay ...
    Ints b(a.begin() + 2, a.end());
    if (a[1] == RowMajor) switch (a[0]) { case 0: return view<float, RowMajor>(b); case 1: return view<double, RowMajor>(b); case 2: return view<int, RowMajor>(b); default: return view<bool, RowMajor>(b); }
    switch (a[0]) { case 0: return view<float, ColMajor>(b); case 1: return view<double, ColMajor>(b); case 2: return view<int, ColMajor>(b); default: return view<bool, ColMajor>(b); }
}

static VLevel vl(int v) { return v >= 3 ? VLevel::V3 : v == 2 ? VLevel::V2 : v == 1 ? VLevel::V1 : VLevel::V0; }

template <typename T, int L> struct Srv : Obj {
    std::unique_ptr<Server<T, L>> p;
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        if (o.name == "new") {
            auto& nm = sc.names.at(s.name);
            if (p) return {"badop", {}}; held = 0;
            p.reset(new Server<T, L>(s.rows, s.cols, nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.force, s.safe));
            return {"ok", {}};
        }
        if (!p) return {"none", {}};
        if (o.name == "run") { p->run(); return {"ok", {}}; }
        if (o.name == "stop") { p->stop(); return {"ok", {}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { p.reset(); return {"ok", {}}; }
        if (o.name == "ncl") return {"ok", {p->getNClients()}};
        if (o.name == "isrun") return B(p->isRunning());
        if (o.name == "dims") return {"ok", {p->getNRows(), p->getNCols()}};
        if (o.name == "info") { auto& nm = sc.names.at(s.name); return {"ok", {(int)p->getScalarType(), p->getMemLayout(), p->getNamespace() == nm.first, p->getBasename() == nm.second}}; }
        if (o.name == "acq") { p->dataSemAcquire(); held++; return {"ok", {}}; }
        if (o.name == "rel") { if (!held && o.a.empty()) return {"skip", {}}; if (held) held--; p->dataSemRelease(); return {"ok", {}}; }
        if (o.name == "w" || o.name == "r") return rw<Server<T, L>, T, L>(*p, o);
        return {"badop", {}};
    }
};
template <typename T, int L> struct Cli : Obj {
    std::unique_ptr<Client<T, L>> p;
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        if (o.name == "new") {
            auto& nm = sc.names.at(s.name);
            if (p) return {"badop", {}}; held = 0;
            p.reset(new Client<T, L>(nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.safe));
            return {"ok", {}};
        }
        if (!p) return {"none", {}};
        if (o.name == "attach") { p->attach(); return {"ok", {p->getNRows(), p->getNCols()}}; }
        if (o.name == "detach") { p->detach(); return {"ok", {}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { p.reset(); return {"ok", {}}; }
        if (o.name == "isrun") return B(p->isAttached());
        if (o.name == "dims") return {"ok", {p->getNRows(), p->getNCols()}};
        if (o.name == "info") { auto& nm = sc.names.at(s.name); return {"ok", {(int)p->getScalarType(), p->getMemLayout(), p->getNamespace() == nm.first, p->getBasename() == nm.second}}; }
        if (o.name == "acq") { p->dataSemAcquire(); held++; return {"ok", {}}; }
        if (o.name == "rel") { if (!held && o.a.empty()) return {"skip", {}}; if (held) held--; p->dataSemRelease(); return {"ok", {}}; }
        if (o.name == "w" || o.name == "r") return rw<Client<T, L>, T, L>(*p, o);
        return {"badop", {}};
    }
};

static long strId(const std::string& s, const Scenario& sc) {
    for (auto& k : sc.strs) if (k.second == s) return k.first;
    return TORN;
}
template <typename M> struct Str : Obj {
    std::unique_ptr<StringTensor<M>> p;
    void make(const ObjSpec& s, const Scenario& sc, std::true_type) {
        auto& nm = sc.names.at(s.name);
        p.reset(new StringTensor<M>(s.cols, nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.force, s.safe));
    }
    void make(const ObjSpec& s, const Scenario& sc, std::false_type) {
        auto& nm = sc.names.at(s.name);
        p.reset(new StringTensor<M>(nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.safe));
    }
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        if (o.name == "new") { if (p) return {"badop", {}}; make(s, sc, std::integral_constant<bool, std::is_same<M, StrServer>::value>()); return {"ok", {}}; }
        if (!p) return {"none", {}};
        if (o.name == "run") { p->run(); return {"ok", std::is_same<M, StrServer>::value ? Ints{} : Ints{1, p->getLength()}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { p.reset(); return {"ok", {}}; }
        if (o.name == "isrun") return B(p->isRunning());
        if (o.name == "ncl") return {"ok", {p->getNClients()}};
        if (o.name == "len") return {"ok", {p->getLength()}};
        if (o.name == "issrv") return B(p->isServer());
        if (o.name == "info") { auto& nm = sc.names.at(s.name); return {"ok", {(int)p->getSharedMem().getScalarType(), p->getSharedMem().getMemLayout(), p->getNamespace() == nm.first, p->getBasename() == nm.second}}; }
        if (o.name == "shm") { auto& m = p->getSharedMem(); return {"ok", {m.getNCols()}}; }
        if (o.name == "raw") { auto t = p->get_raw_buffer(); return {"ok", {t.rows(), t.cols()}}; }
        if (o.name == "ws") return B(p->write(sc.strs.at(o.a[1]), (int)o.a[0]));
        if (o.name == "wl") { std::vector<std::string> v; for (size_t i = 1; i < o.a.size(); i++) v.push_back(sc.strs.at(o.a[i])); return B(p->write(v, (int)o.a[0])); }
        if (o.name == "rs") {
            std::string out = "\x01sentinel"; bool ok = p->read(out, (int)o.a[0]);
            if (!ok) return out == "\x01sentinel" ? B(false) : Res{"dirty", {}};
            return {"t", {strId(out, sc)}};
        }
        if (o.name == "rl") {
            std::vector<std::string> v(o.a[1], "\x01sentinel"); bool ok = p->read(v, (int)o.a[0]);
            if (!ok) { for (auto& x : v) if (x != "\x01sentinel") return {"dirty", {}}; return B(false); }
            Res r{"t", {}}; if ((long)v.size() != o.a[1]) return {"dirty", {}};
            for (auto& x : v) r.v.push_back(strId(x, sc));
            return r;
        }
        return {"badop", {}};
    }
};
struct Prod : Obj {
    std::unique_ptr<Producer> p;
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        auto& nm = sc.names.at(s.name);
        if (o.name == "new") { p.reset(); p.reset(new Producer(nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.force)); return {"ok", {}}; }
        if (!p) return {"none", {}};
        if (o.name == "run") { p->run(); return {"ok", {}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { p.reset(); return {"ok", {}}; }
        if (o.name == "trig") { p->trigger(); return {"ok", {}}; }
        if (o.name == "wack") return B(p->wait_ack_from((int)o.a[0], (int)o.a[1]));
        return {"badop", {}};
    }
};
struct Cons : Obj {
    std::unique_ptr<Consumer> p;
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        auto& nm = sc.names.at(s.name);
        if (o.name == "new") { p.reset(); p.reset(new Consumer(nm.second, nm.first, s.verbose > 0, vl(s.verbose))); return {"ok", {}}; }
        if (!p) return {"none", {}};
        if (o.name == "run") { p->run(); return {"ok", {}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { p.reset(); return {"ok", {}}; }
        if (o.name == "wait") return B(p->wait((int)o.a[0]));
        if (o.name == "ack") return B(p->ack());
        if (o.name == "wna") {
            long n = 0; Res r;
            try { r = B(p->wait_and_ack([&] { n++; vp::apiPoint(); return o.a[1] != 0; }, (int)o.a[0])); } catch (const std::exception&) { r = {"exc", {}}; }
            r.v.push_back(n); return r;
        }
        return {"badop", {}};
    }
};
struct CV : Obj {
    std::unique_ptr<ConditionVariable> p;
    std::unique_ptr<ConditionVariable::NamedMutex> m; // a handle on the lock alone
    ConditionVariable::ScopedLock lk, mlk;
    void drop() { lk = ConditionVariable::ScopedLock(); mlk = ConditionVariable::ScopedLock(); m.reset(); p.reset(); }
    ~CV() { }
    Res op(const Op& o, const Scenario& sc) override {
        const ObjSpec& s = sc.objs.at(o.obj);
        auto& nm = sc.names.at(s.name);
        if (o.name == "new") { drop(); p.reset(new ConditionVariable(s.kind == "cvs", nm.second, nm.first, s.verbose > 0, vl(s.verbose), s.force)); return {"ok", {}}; }
        if (!p) return {"none", {}};
        if (o.name == "lock") { lk = p->lock(); return {"ok", {}}; }
        if (o.name == "unlock") { if (o.a.size() && o.a[0]) ConditionVariable::unlock(lk); else lk = ConditionVariable::ScopedLock(); return {"ok", {}}; }
        if (o.name == "wait") { p->wait(lk); return {"ok", {}}; }
        if (o.name == "twait") return B(p->timedwait(lk, o.a[0]));
        if (o.name == "waitp") { int k = o.a[0], v = o.a[1]; p->wait_for(lk, [=] { return flags_[k] == v; }); return {"ok", {flags_[k]}}; }
        if (o.name == "twaitp") { int k = o.a[1], v = o.a[2]; return B(p->timedwait_for(lk, o.a[0], [=] { return flags_[k] == v; })); }
        if (o.name == "set") { flags_[o.a[0]] = o.a[1]; return {"ok", {}}; }
        if (o.name == "get") return {"ok", {flags_[o.a[0]]}};
        if (o.name == "n1") { p->notify_one(); return {"ok", {}}; }
        if (o.name == "na") { p->notify_all(); return {"ok", {}}; }
        if (o.name == "mlock") { if (!m) m.reset(new ConditionVariable::NamedMutex(ConditionVariable::create_named_mutex(p->mutex_path()))); mlk = ConditionVariable::lock(*m); return {"ok", {}}; }
        if (o.name == "munlock") { if (o.a.size() && o.a[0]) ConditionVariable::unlock(mlk); else mlk = ConditionVariable::ScopedLock(); return {"ok", {}}; }
        if (o.name == "close") { p->close(); return {"ok", {}}; }
        if (o.name == "del") { drop(); return {"ok", {}}; }
        return {"badop", {}};
    }
};

#ifdef VP_PYTHON
#include "pyhost.hpp"
#else
static Obj* makeObj(const ObjSpec& s, const Scenario&) {
#define MK(K, C) if (s.kind == K) { \
    if (s.lay == RowMajor) switch (s.dt) { case 0: return new C<float, RowMajor>; case 1: return new C<double, RowMajor>; case 2: return new C<int, RowMajor>; default: return new C<bool, RowMajor>; } \
    switch (s.dt) { case 0: return new C<float, ColMajor>; case 1: return new C<double, ColMajor>; case 2: return new C<int, ColMajor>; default: return new C<bool, ColMajor>; } }
    MK("srv", Srv)
    MK("cli", Cli)
    if (s.kind == "sts") return new Str<StrServer>;
    if (s.kind == "stc") return new Str<StrClient>;
    if (s.kind == "prod") return new Prod;
    if (s.kind == "cons") return new Cons;
    return new CV;
}
#endif

// leftovers of a name: objects other than one of at most one byte, the running flag
static long leftovers(const Scenario& sc, int nm, long flags = 1) {
    long n = 0, flag = 0;
    for (auto& x : vp::names()) {
        std::string s = x.first.substr(1);
        if (s.compare(0, 4, "sem.") == 0) s = s.substr(4);
        int best = -1; size_t len = 0;
        for (auto& k : sc.names) {
            std::string pre = k.second.first + k.second.second;
            if (s.compare(0, pre.size(), pre) == 0 && pre.size() >= len) { best = k.first; len = pre.size(); }
        }
        if (best == nm) { if (x.second >= 0 && x.second <= 1 && flag < flags) flag++; n++; }
    }
    return n - flag;
}

static vp::Result runOnce(const Scenario& sc, const vp::Plan& plan) {
    std::map<int, std::unique_ptr<Obj>>* objs = new std::map<int, std::unique_ptr<Obj>>; // leaked if fibers die
#ifdef VP_PYTHON
    pyReset();
#endif
    for (auto& o : sc.objs) (*objs)[o.first].reset(makeObj(o.second, sc));
    memset(flags_, 0, sizeof flags_);
    std::vector<int>* done = new std::vector<int>(sc.ops.size(), 0);
    std::vector<vp::ActorSpec> acts;
    int np = 1; for (int p : sc.procs) np = std::max(np, p + 1);
    for (size_t a = 0; a < sc.ops.size(); a++)
        acts.push_back({sc.procs[a], [&sc, a, objs, done] {
            for (auto& o : sc.ops[a]) {
                vp::apiPoint();
                if (!o.after.empty()) vp::waitUntil([&] { for (auto& x : o.after) if (x.first ? (*done)[x.first - 1] < x.second : !vp::procGone(x.second - 1)) return false; return true; });
                std::string ts = sc.timed ? "@" + std::to_string(vp::now_ms() - 1700000000000L) : "";
                vp::setOwner(o.obj);
                vp::event("c" + std::to_string(a + 1) + ts);
                Res r;
                if (o.name == "fds") r = {"ok", {vp::openFds(sc.procs[a])}};
                else if (o.name == "own") { vp::grabForeignFd(); r = {"ok", {}}; }
                else if (o.name == "names") r = {"ok", {leftovers(sc, o.a[0], o.a.size() > 1 ? o.a[1] : 1)}};
                else if (o.name == "kill") vp::killSelf();
                else if (o.name == "nop") r = {"ok", {}};
                else if (o.name == "view") { try { r = viewOf(o.a); } catch (const std::exception&) { r = {"exc", {}}; } }
                else try { r = (*objs)[o.obj]->op(o, sc); }
                catch (const std::exception&) { r = {"exc", {}}; }
                std::string e = "r" + std::to_string(a + 1) + ":" + r.s + ":";
                for (size_t i = 0; i < r.v.size(); i++) e += (i ? "," : "") + std::to_string(r.v[i]);
                ts = sc.timed ? "@" + std::to_string(vp::now_ms() - 1700000000000L) : "";
                vp::event(e + ts);
                (*done)[a]++;
            }
        }});
    vp::on_jump = nullptr;
    if (sc.timed) vp::on_jump = [] { vp::mark("J@" + std::to_string(vp::now_ms() - 1700000000000L)); };
    vp::Result r = vp::execute(acts, plan, np);
    bool all = true;
    for (size_t a = 0; a < sc.ops.size(); a++) if ((*done)[a] != (int)sc.ops[a].size()) all = false;
    (void)all;
    for (auto& o : *objs) o.second.release(); // never destroyed outside of the world
    delete objs; delete done;
    return r;
}

// ------------------------------------------------------------------ scenarios
static std::vector<Scenario> load(const char* f) {
    std::vector<Scenario> v; std::ifstream in(f); std::string line;
    Scenario s;
    while (std::getline(in, line)) {
        std::stringstream ss(line); std::string k; if (!(ss >> k)) continue;
        auto opt = [&](const std::string& x) { return x == "-" ? std::string() : x; };
        if (k == "scenario") { s = Scenario(); ss >> s.id; }
        else if (k == "timed") s.timed = true;
        else if (k == "name") { int i; std::string a, b; ss >> i >> a >> b; s.names[i] = {opt(a), opt(b)}; }
        else if (k == "actor") { int p; ss >> p; s.procs.push_back(p); s.ops.emplace_back(); }
        else if (k == "str") { int i; std::string h, o; ss >> i >> h; for (size_t j = 0; h != "-" && j + 1 < h.size(); j += 2) o += (char)std::stoi(h.substr(j, 2), nullptr, 16); s.strs[i] = o; }
        else if (k == "obj") { int i; ObjSpec o; ss >> i >> o.kind >> o.name >> o.dt >> o.lay >> o.safe >> o.force >> o.rows >> o.cols >> o.verbose; s.objs[i] = o; }
        else if (k == "op") {
            int a; std::string aft; Op o; ss >> a >> aft >> o.name >> o.obj; long x; while (ss >> x) o.a.push_back(x);
            if (aft != "-") { std::stringstream t(aft); std::string e; while (std::getline(t, e, ',')) o.after.push_back({atoi(e.c_str()), atoi(e.substr(e.find(':') + 1).c_str())}); }
            s.ops[a - 1].push_back(o);
        }
        else if (k == "explore") { Explore e; ss >> e.mode; if (e.mode == "fixed") { std::string r; std::getline(ss, r); e.plan = vp::Plan::parse(r); } else { long x; while (ss >> x) e.a.push_back(x); } s.explore.push_back(e); }
        else if (k == "end") v.push_back(s);
    }
    return v;
}

static unsigned long mix(unsigned long x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdUL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53UL; x ^= x >> 33; return x; }
struct Rng { unsigned long s; unsigned long operator()() { s += 0x9e3779b97f4a7c15UL; return mix(s); } long upto(long n) { return n <= 0 ? 0 : (long)((*this)() % (unsigned long)n); } };

static std::vector<int> perm(Rng& r, int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.upto(i + 1)]); return p; }

// all plans of a scenario (deterministic)
static std::vector<vp::Plan> plans(const Scenario& sc, const vp::Result& base, unsigned long seed) {
    std::vector<vp::Plan> v; int n = sc.ops.size();
    Rng r{mix(seed) ^ std::hash<std::string>()(sc.id)};
    long L = std::max(4L, base.points);
    for (auto& e : sc.explore) {
        if (e.mode == "fixed") v.push_back(e.plan);
        else if (e.mode == "one") { // every order, every single preemption (sampled beyond the cap)
            long cap = e.a.empty() ? 100000 : e.a[0];
            std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
            std::vector<vp::Plan> all;
            do {
                for (long k = 0; k <= L; k++) { vp::Plan q; q.order = p; if (k) q.change = {k}; q.seed = 1; all.push_back(q); }
            } while (std::next_permutation(p.begin(), p.end()));
            if ((long)all.size() > cap) { for (size_t i = 0; i < (size_t)cap; i++) std::swap(all[i], all[i + r.upto(all.size() - i)]); all.resize(cap); }
            v.insert(v.end(), all.begin(), all.end());
        } else if (e.mode == "pct") { // depth count [spurious]
            for (long i = 0; i < e.a[1]; i++) {
                vp::Plan q; q.order = perm(r, n); q.seed = r() % 1000000007;
                long d = 1 + r.upto(e.a[0]);
                for (long j = 0; j < d; j++) q.change.push_back(1 + r.upto(L + L / 4));
                std::sort(q.change.begin(), q.change.end()); q.jump = r.upto(2);
                if (e.a.size() > 2 && r.upto(3) == 0) q.spurious = e.a[2];
                v.push_back(q);
            }
        } else if (e.mode == "crash") { // actor(1-based) schedules-per-point cap
            int a = e.a[0] - 1; long per = e.a.size() > 1 ? e.a[1] : 1, cap = e.a.size() > 2 ? e.a[2] : 1000000;
            std::vector<vp::Plan> all;
            for (long k = 1; k <= base.actor_points[a]; k++) for (long j = 0; j < per; j++) {
                vp::Plan q; q.crash_actor = a; q.crash_at = k; q.seed = r() % 1000000007;
                if (j == 0) { q.order.clear(); q.order.push_back(a); for (int i = 0; i < n; i++) if (i != a) q.order.push_back(i); }
                else { q.order = perm(r, n); long d = r.upto(3); for (long t = 0; t < d; t++) q.change.push_back(1 + r.upto(L)); std::sort(q.change.begin(), q.change.end()); q.jump = r.upto(2); }
                all.push_back(q);
            }
            if ((long)all.size() > cap) { for (size_t i = 0; i < (size_t)cap; i++) std::swap(all[i], all[i + r.upto(all.size() - i)]); all.resize(cap); }
            v.insert(v.end(), all.begin(), all.end());
        } else if (e.mode == "fault" || e.mode == "intr") { // actor schedules-per-point
            int a = e.a[0] - 1; long per = e.a.size() > 1 ? e.a[1] : 1; bool f = e.mode == "fault";
            long m = f ? base.actor_faults[a] : std::max(3L, base.actor_blocks[a]);
            for (long k = 1; k <= m; k++) for (long j = 0; j < per; j++) {
                vp::Plan q; (f ? q.fault_actor : q.intr_actor) = a; (f ? q.fault_at : q.intr_at) = k; q.seed = r() % 1000000007;
                if (j == 0) { for (int i = 0; i < n; i++) q.order.push_back(i); }
                else { q.order = perm(r, n); long d = r.upto(3); for (long t = 0; t < d; t++) q.change.push_back(1 + r.upto(L)); std::sort(q.change.begin(), q.change.end()); q.jump = r.upto(2); }
                v.push_back(q);
            }
        }
    }
    return v;
}

static std::string joined(const std::vector<std::string>& e) { std::string s; for (auto& x : e) { s += x; s += ' '; } return s; }
// real time order only: calls that follow each other commute, and so do returns
static std::vector<std::string> canon(std::vector<std::string> e, bool timed) {
    if (timed) return e;
    size_t i = 0;
    while (i < e.size()) {
        char k = e[i][0]; size_t j = i;
        if (k == 'c' || k == 'r') { while (j < e.size() && e[j][0] == k) j++; std::sort(e.begin() + i, e.begin() + j); i = j; }
        else i++;
    }
    return e;
}

struct Shared { std::atomic<long> sc, ex, execs; char desc[2000]; };

int main(int argc, char** argv) {
#ifdef VP_PYTHON
    pyInit();
#endif
    if (argc >= 4 && std::string(argv[1]) == "replay") { // replay <scenario file> <scenario id> <plan...>
        auto v = load(argv[2]);
        std::string d; for (int i = 4; i < argc; i++) d += std::string(argv[i]) + " ";
        for (auto& s : v) if (s.id == argv[3]) {
            vp::init(); vp::trace_calls = getenv("VP_QUIET") == nullptr;
            int fd = open("/dev/null", O_WRONLY); int out = dup(1); dup2(fd, 1);
            static const Scenario* cs; cs = &s;
            static int so; so = out;
            vp::on_fatal = [](const std::vector<std::string>& e) { std::string t = joined(canon(e, cs->timed)) + "\n"; (void)!write(so, t.data(), t.size()); };
            vp::Plan p = vp::Plan::parse(d);
            if (p.order.empty()) for (size_t i = 0; i < s.ops.size(); i++) p.order.push_back(i);
            vp::on_dire = [] { (void)!write(so, "F:abort\n", 8); };
            struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
            auto r = runOnce(s, p);
            std::string t = joined(canon(r.events, s.timed)) + "\n"; (void)!write(out, t.data(), t.size());
            return 0;
        }
        fprintf(stderr, "no such scenario\n"); return 2;
    }
    // explore <scenario file> <out prefix> <workers> <seed>
    if (argc < 6) { fprintf(stderr, "usage\n"); return 2; }
    auto scs = load(argv[2]); std::string pre = argv[3]; int nw = atoi(argv[4]); unsigned long seed = strtoul(argv[5], nullptr, 10);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<pid_t, int> kids;
    auto spawn = [&](int w) {
        pid_t p = fork();
        if (p) { kids[p] = w; return; }
        vp::init();
#ifdef VP_PYTHON
        PyOS_AfterFork_Child();
#endif
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
        static int out; out = open((pre + "." + std::to_string(w)).c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
        static std::string desc; static const Scenario* cs;
        vp::on_fatal = [](const std::vector<std::string>& e) { std::string t = "T " + cs->id + " | " + desc + " | " + joined(canon(e, cs->timed)) + "\n"; (void)!write(out, t.data(), t.size()); };
        Shared& me = sh[w];
        for (;;) {
            long si = me.sc; if (si >= (long)scs.size()) break;
            const Scenario& s = scs[si]; cs = &s;
            vp::Plan bp; for (size_t i = 0; i < s.ops.size(); i++) bp.order.push_back(i);
            auto describe = [&](const vp::Plan& p) { desc = p.str(); snprintf(me.desc, sizeof me.desc, "%s", desc.c_str()); };
            describe(bp);
            bool baseFailed = me.ex == 1; // died in the base run
            if (baseFailed) { me.sc = si + 1; me.ex = 0; continue; }
            long resume = me.ex; if (resume == 0) me.ex = 1;
            struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
            vp::Result base = runOnce(s, bp);
            std::set<std::string> seen;
            auto emit = [&](const vp::Result& r) {
                std::string t = joined(canon(r.events, s.timed));
                if (!seen.insert(t).second) return;
                std::string l = "T " + s.id + " | " + desc + " | " + t + "\n"; (void)!write(out, l.data(), l.size());
            };
            emit(base); me.execs++;
            auto ps = plans(s, base, seed);
            // ex: 0 not started, 1 base running, i+2 plan i running
            size_t i = resume >= 2 ? resume - 1 : 0;
            for (; i < ps.size(); i++) {
                if ((long)(i % nw) != w) continue;
                me.ex = i + 2; describe(ps[i]);
                setitimer(ITIMER_REAL, &it, nullptr);
                emit(runOnce(s, ps[i])); me.execs++;
            }
            me.sc = si + 1; me.ex = 0;
        }
        _exit(0);
    };
    for (int w = 0; w < nw; w++) { unlink((pre + "." + std::to_string(w)).c_str()); spawn(w); }
    int deaths = 0, spins = 0;
    while (!kids.empty()) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        int w = kids[p]; kids.erase(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { if (++spins >= 2 * nw) { fprintf(stderr, "too many endless loops\n"); break; } } // (found; every further one takes as long)
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { // failed so badly that it could not even say what it did
            std::string t = "T " + scs[sh[w].sc].id + " | " + sh[w].desc + " | F:abort\n";
            int f = open((pre + "." + std::to_string(w)).c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600); (void)!write(f, t.data(), t.size()); close(f);
        }
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) fprintf(stderr, "worker %d ended with status %x\n", w, st);
        if (++deaths > 4000) { fprintf(stderr, "too many failures\n"); break; }
        spawn(w);
    }
    for (auto& k : kids) kill(k.first, SIGKILL);
    long n = 0; for (int w = 0; w < nw; w++) n += sh[w].execs;
    printf("executions %ld deaths %d\n", n, deaths);
    return 0;
}
