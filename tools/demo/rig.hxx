// A single raft server with stand-ins for everything around it: messages are handed in with process_req,
// requests it sends are recorded, timers never fire by themselves, system_exit throws.
#ifndef RIG_HXX
#define RIG_HXX
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "cornerstone.hxx"

namespace rig
{
using namespace cornerstone;
#define CHECK(c)                                                                                  \
    do                                                                                            \
    {                                                                                             \
        if (!(c))                                                                                 \
        {                                                                                         \
            std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c);                            \
            std::fflush(stdout);                                                                  \
            std::_Exit(1);                                                                        \
        }                                                                                         \
    } while (0)
#define PASS()                        \
    do                                \
    {                                 \
        std::printf("passed\n");      \
        std::fflush(stdout);          \
        std::_Exit(0);                \
    } while (0)

struct exited : std::runtime_error
{
    exited() : std::runtime_error("system_exit") {}
};

inline ptr<log_entry> entry(ulong term, const std::string& s, log_val_type t = log_val_type::app_log)
{
    bufptr b = buffer::alloc(s.size() + 1);
    b->put(s);
    b->pos(0);
    return cs_new<log_entry>(term, std::move(b), t);
}

inline ptr<log_entry> conf_entry(ulong term, cluster_config& c)
{
    return cs_new<log_entry>(term, c.serialize(), log_val_type::conf);
}

inline std::string text(log_entry& e)
{
    buffer& b = e.get_buf();
    b.pos(0);
    std::string s(b.get_str());
    b.pos(0);
    return s;
}

class mem_log : public log_store
{
public:
    ulong start_ = 1;
    std::map<ulong, ptr<log_entry>> m_;
    std::vector<std::string> ops_;
    std::vector<ulong> compacted_;
    ulong next_ = 1;
    bool compact_ok_ = true;
    mutable std::mutex l_;
    ulong next_slot() const override { std::lock_guard<std::mutex> g(l_); return next_; }
    ulong start_index() const override { std::lock_guard<std::mutex> g(l_); return start_; }
    ptr<log_entry> last_entry() const override
    {
        std::lock_guard<std::mutex> g(l_);
        return m_.empty() ? cs_new<log_entry>(0, buffer::alloc(8)) : m_.rbegin()->second;
    }
    ulong append(ptr<log_entry>& e) override
    {
        std::lock_guard<std::mutex> g(l_);
        ops_.push_back("append " + std::to_string(next_));
        m_[next_] = copy(e);
        return next_++;
    }
    void write_at(ulong i, ptr<log_entry>& e) override
    {
        std::lock_guard<std::mutex> g(l_);
        ops_.push_back("write " + std::to_string(i));
        m_.erase(m_.lower_bound(i), m_.end());
        m_[i] = copy(e);
        next_ = i + 1;
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) override
    {
        std::lock_guard<std::mutex> g(l_);
        ptr<std::vector<ptr<log_entry>>> r(cs_new<std::vector<ptr<log_entry>>>());
        for (ulong i = s; i < e && i < next_; ++i) r->push_back(copy(m_[i]));
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        std::lock_guard<std::mutex> g(l_);
        auto it = m_.find(i);
        return it == m_.end() ? ptr<log_entry>() : copy(it->second);
    }
    ulong term_at(ulong i) override
    {
        std::lock_guard<std::mutex> g(l_);
        auto it = m_.find(i);
        return it == m_.end() ? 0 : it->second->get_term();
    }
    bufptr pack(ulong index, int32 cnt) override
    {
        std::lock_guard<std::mutex> g(l_);
        packs_.push_back({index, cnt});
        bufptr b = buffer::alloc(16);
        b->put(index);
        b->put((ulong)cnt);
        b->pos(0);
        return b;
    }
    void apply_pack(ulong index, buffer& p) override { std::lock_guard<std::mutex> g(l_); applied_.push_back(index); }
    bool compact(ulong last) override
    {
        std::lock_guard<std::mutex> g(l_);
        compacted_.push_back(last);
        if (!compact_ok_) return false;
        m_.erase(m_.begin(), m_.upper_bound(last));
        start_ = last + 1;
        if (next_ < start_) next_ = start_;
        return true;
    }
    std::vector<std::pair<ulong, int32>> packs_;
    std::vector<ulong> applied_;
    void fill(const std::vector<ulong>& terms)
    {
        for (ulong t : terms)
        {
            auto e = entry(t, "e" + std::to_string(next_));
            m_[next_++] = e;
        }
    }
    static ptr<log_entry> copy(const ptr<log_entry>& e)
    {
        return e; // shared, like the in-memory tail of a real store
    }
};

class sm : public state_machine
{
public:
    std::vector<std::string> calls_;
    std::mutex l_;
    ulong commit_ = 0;
    ptr<snapshot> last_;
    bool apply_ok_ = true;
    std::function<void(ulong)> on_commit_;
    std::string snp_data_;
    std::vector<std::pair<ulong, size_t>> saved_;
    async_result<bool>::handler_type when_done_;
    ptr<snapshot> being_made_;
    bool complete_at_once_ = true;
    void say(const std::string& what, ulong i, buffer& b)
    {
        b.pos(0);
        std::string s(b.get_str());
        b.pos(0);
        std::lock_guard<std::mutex> g(l_);
        calls_.push_back(what + " " + std::to_string(i) + " " + s);
    }
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override
    {
        if (on_commit_) on_commit_(i);
        say("commit", i, d);
        commit_ = i;
    }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { say("pre_commit", i, d); }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { say("rollback", i, d); }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override { saved_.push_back({off, d.size()}); }
    bool apply_snapshot(snapshot& s) override { std::lock_guard<std::mutex> g(l_); calls_.push_back("apply_snapshot " + std::to_string(s.get_last_log_idx())); return apply_ok_; }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& d) override
    {
        reads_.push_back({off, d.size()});
        size_t n = d.size();
        for (size_t i = 0; i < n; ++i) d.data()[i] = (byte)(off + i);
        d.pos(0);
        return (int)n;
    }
    std::vector<std::pair<ulong, size_t>> reads_;
    ptr<snapshot> last_snapshot() override { return last_; }
    ulong last_commit_index() override { return commit_; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& h) override
    {
        created_.push_back({s.get_last_log_idx(), s.get_last_log_term()});
        confs_.push_back(s.get_last_config()->get_log_idx());
        when_done_ = h;
        if (complete_at_once_)
        {
            bool ok = true;
            h(ok, ptr<std::exception>());
        }
    }
    std::vector<std::pair<ulong, ulong>> created_;
    std::vector<ulong> confs_;
    bool has(const std::string& c)
    {
        std::lock_guard<std::mutex> g(l_);
        for (auto& x : calls_) if (x == c) return true;
        return false;
    }
    int count(const std::string& prefix)
    {
        std::lock_guard<std::mutex> g(l_);
        int n = 0;
        for (auto& x : calls_) if (x.compare(0, prefix.size(), prefix) == 0) ++n;
        return n;
    }
};

class mgr : public state_mgr
{
public:
    int32 id_;
    ptr<cluster_config> conf_;
    ptr<mem_log> log_;
    std::vector<std::pair<ulong, int32>> saves_;
    std::vector<std::vector<int32>> confs_saved_;
    ulong term0_ = 0;
    int32 vote0_ = -1;
    std::atomic<int> exits_{0};
    ptr<cluster_config> load_config() override { return conf_; }
    void save_config(const cluster_config& c) override
    {
        std::vector<int32> v;
        for (auto& s : const_cast<cluster_config&>(c).get_servers()) v.push_back(s->get_id());
        confs_saved_.push_back(v);
    }
    void save_state(const srv_state& s) override { saves_.push_back({s.get_term(), s.get_voted_for()}); }
    ptr<srv_state> read_state() override
    {
        auto s = cs_new<srv_state>();
        s->set_term(term0_);
        s->set_voted_for(vote0_);
        return s;
    }
    ptr<log_store> load_log_store() override { return log_; }
    int32 server_id() override { return id_; }
    void system_exit(const int) override
    {
        ++exits_;
        throw exited();
    }
};

class nolog : public logger
{
public:
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string&) override {}
};

struct sent
{
    std::string to;
    ptr<req_msg> req;
    rpc_handler done;
};

class net : public rpc_client_factory
{
public:
    std::vector<sent> out_;
    std::recursive_mutex l_;
    class cli : public rpc_client
    {
    public:
        net& n_;
        std::string to_;
        cli(net& n, const std::string& to) : n_(n), to_(to) {}
        void send(ptr<req_msg>& req, rpc_handler& h) override
        {
            std::lock_guard<std::recursive_mutex> g(n_.l_);
            n_.out_.push_back({to_, req, h});
        }
    };
    ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<cli>(*this, ep); }
    // the requests sent so far, of a kind, and forget them
    std::vector<sent> take()
    {
        std::lock_guard<std::recursive_mutex> g(l_);
        std::vector<sent> r;
        r.swap(out_);
        return r;
    }
    std::vector<sent> take(msg_type t)
    {
        std::vector<sent> r;
        for (auto& s : take()) if (s.req->get_type() == t) r.push_back(s);
        return r;
    }
};

class sched : public delayed_task_scheduler
{
public:
    std::map<delayed_task*, int32> on_;
    std::map<delayed_task*, int> starts_;
    std::recursive_mutex l_;
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        std::lock_guard<std::recursive_mutex> g(l_);
        t->reset();
        on_[t.get()] = ms;
        ++starts_[t.get()];
    }
    bool scheduled(const ptr<delayed_task>& t)
    {
        std::lock_guard<std::recursive_mutex> g(l_);
        return on_.count(t.get()) > 0;
    }

private:
    void cancel_impl(ptr<delayed_task>& t) override
    {
        std::lock_guard<std::recursive_mutex> g(l_);
        on_.erase(t.get());
    }
};

class events : public raft_event_listener
{
public:
    void on_event(raft_event) override {}
};

struct node
{
    ptr<mgr> m;
    ptr<sm> s;
    ptr<mem_log> log;
    ptr<net> n;
    ptr<sched> t;
    raft_params* params;
    ptr<raft_server> r;
    node(int32 id, std::vector<int32> ids, raft_params* p = nullptr)
    {
        m = cs_new<mgr>();
        s = cs_new<sm>();
        log = cs_new<mem_log>();
        n = cs_new<net>();
        t = cs_new<sched>();
        m->id_ = id;
        m->conf_ = cs_new<cluster_config>();
        for (int32 i : ids) m->conf_->get_servers().push_back(cs_new<srv_config>(i, "srv" + std::to_string(i)));
        m->log_ = log;
        params = p ? p : new raft_params;
    }
    raft_server& start()
    {
        context* c = new context(m, s, ptr<rpc_listener>(), cs_new<nolog>(), n, t, cs_new<events>(), params);
        r = cs_new<raft_server>(c);
        return *r;
    }
    ptr<resp_msg> req(req_msg& q) { return r->process_req(q); }
    ptr<resp_msg> vote(ulong term, int32 src, ulong lterm, ulong lidx)
    {
        req_msg q(term, msg_type::vote_request, src, m->id_, lterm, lidx, 0);
        return req(q);
    }
    ptr<resp_msg> append(ulong term, int32 src, ulong lterm, ulong lidx, ulong commit, std::vector<ptr<log_entry>> es = {})
    {
        req_msg q(term, msg_type::append_entries_request, src, m->id_, lterm, lidx, commit);
        for (auto& e : es) q.log_entries().push_back(e);
        return req(q);
    }
    void elect() { r->election_exec_(); }
    // answers a recorded request
    static void reply(sent& o, ulong term, msg_type t, int32 src, bool ok, ulong next = 0)
    {
        ptr<resp_msg> p(cs_new<resp_msg>(term, t, src, o.req->get_src(), next));
        if (ok) p->accept(next);
        o.done(p, ptr<rpc_exception>());
    }
    static void fail(sent& o)
    {
        ptr<resp_msg> none;
        o.done(none, cs_new<rpc_exception>("down", o.req));
    }
    int32 who(const sent& o) { return o.req->get_dst(); }
    // become leader by getting everybody's vote
    void lead()
    {
        elect();
        for (auto& o : n->take(msg_type::vote_request))
            if (r->role_ != srv_role::leader) reply(o, o.req->get_term(), msg_type::vote_response, o.req->get_dst(), true, o.req->get_last_log_idx() + 1);
        CHECK(r->role_ == srv_role::leader);
    }
    bool wait(std::function<bool()> f, int ms = 3000)
    {
        for (int i = 0; i < ms; ++i)
        {
            if (f()) return true;
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return f();
    }
    ulong term() { return r->state_->get_term(); }
    int32 voted() { return r->state_->get_voted_for(); }
};
} // namespace rig
#endif
