// Recording of calls on real nodes: one JSON line per call (see spec/Trace.tla).
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>

#include "obs.h"

namespace h {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) Next(); }
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  int64_t In(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + static_cast<int64_t>(Below(hi - lo + 1)); }
  bool P(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
};

inline uint64_t Mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ull ^ (b + 0x51ull)); return r.Next(); }
inline std::string Hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%08x", static_cast<unsigned>(v ^ (v >> 32))); return b; }
inline uint64_t HashStr(const std::string& s) {
  uint64_t x = 1469598103934665603ull;
  for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; }
  return x;
}

struct Shared {
  volatile int len;
  volatile int stage;
  char buf[1 << 18];
};

// The output: one line per call, flushed before the next call is made.
class Out {
 public:
  Out(int fd, Shared* sh) : fd_(fd), sh_(sh) {}
  void Pending(const std::string& head) {
    size_t n = std::min(head.size(), sizeof(sh_->buf) - 1);
    memcpy(sh_->buf, head.data(), n);
    sh_->len = static_cast<int>(n);
  }
  void Line(const std::string& s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
      ssize_t w = write(fd_, l.data() + off, l.size() - off);
      if (w <= 0) _exit(7);
      off += w;
    }
    sh_->len = 0;
    lines++;
  }
  long lines = 0;
 private:
  int fd_;
  Shared* sh_;
};

struct RunOver {};   // the run cannot go on (the library panicked)

// A storage that can be told to postpone handing out its snapshot.
class Store : public MemoryStorage {
 public:
  using MemoryStorage::MemoryStorage;
  bool postpone = false;
  std::tuple<SnapshotPtr, Status> SnapShot() override {
    if (postpone) return std::make_tuple(SnapshotPtr(), Status::Error(kErrSnapshotTemporarilyUnavailable));
    return MemoryStorage::SnapShot();
  }
};

struct Conf {
  int64_t et = 3, ht = 1, infl = 4;
  uint64_t maxmsg = UINT64_MAX, maxcomm = UINT64_MAX, maxunc = 0;
  bool cq = false, pv = false, lease = false, dpf = false;
  static std::string Lim(uint64_t v) { return v >= 1000000000ull ? "1000000000" : std::to_string(v); }
  std::string Json() const {
    return "{\"et\":" + NI(et) + ",\"ht\":" + NI(ht) + ",\"maxmsg\":" + Lim(maxmsg) + ",\"maxcomm\":" + Lim(maxcomm) +
           ",\"maxunc\":" + Lim(maxunc) + ",\"infl\":" + NI(infl) + ",\"cq\":" + B(cq) + ",\"pv\":" + B(pv) +
           ",\"lease\":" + B(lease) + ",\"dpf\":" + B(dpf) + "}";
  }
};

inline std::string RdJson(const Ready& rd) {
  std::string r = "{\"en\":" + EntsJson(rd.entries) + ",\"ce\":" + EntsJson(rd.committed_entries) + ",\"sf\":[";
  if (rd.soft_state) r += "{\"ld\":" + N(rd.soft_state->lead) + ",\"rl\":\"" + RoleName(rd.soft_state->raft_state) + "\"}";
  r += "],\"hs\":" + HSJson(rd.hard_state) + ",\"sn\":" +
       SnapJson(rd.snapshot ? *rd.snapshot : raftpb::Snapshot()) + ",\"rs\":" +
       Arr(rd.read_states, [](const ReadState& s) { return "{\"i\":" + N(s.index) + ",\"c\":" + Q(s.request_ctx) + "}"; }) +
       ",\"sy\":" + B(rd.must_sync) + "}";
  return r;
}
inline std::string MsgsJson(const MsgPtrs& ms) {
  return Arr(ms, [](const MsgPtr& m) { return MsgJson(*m); });
}

// Does what the status calls report agree with what the node shows?
inline bool StatusAgrees(RawNode& rn, const Obs& o) {
  auto f = [&](const char* k) { return o.f.at(k); };
  auto b = rn.GetBasicStatus();
  auto same = [&](const NodeBasicStatus& x) {
    return x.id == rn.GetRaft()->ID() && N(x.hard_state.term()) == f("tm") && N(x.hard_state.vote()) == f("vt") &&
           N(x.hard_state.commit()) == f("cm") && N(x.applied) == f("ap") && N(x.lead_transferee) == f("xf") &&
           N(x.soft_state.lead) == f("ld") && "\"" + std::string(RoleName(x.soft_state.raft_state)) + "\"" == f("rl");
  };
  if (!same(b)) return false;
  auto s = rn.GetStatus();
  if (!same(s.basic)) return false;
  std::string cg = "{\"inc\":" + Ids(s.config.voters.Incoming().IDs()) + ",\"out\":" + Ids(s.config.voters.Outgoing().IDs()) +
                   ",\"lr\":" + Ids(s.config.learners) + ",\"ln\":" + Ids(s.config.learners_next) + ",\"al\":" +
                   B(s.config.auto_leave) + "}";
  if (cg != f("cg")) return false;
  std::string pr = Arr(s.progress, [](const std::pair<const uint64_t, ProgressPtr>& p) { return ProgressJson(p.first, *p.second); });
  if (pr != (f("rl") == "\"L\"" ? f("pr") : "[]")) return false;
  std::string w = "[";
  bool types = true;
  rn.WithProgress([&](uint64_t id, ProgressType t, ProgressPtr p) {
    if (w.size() > 1) w += ",";
    w += ProgressJson(id, *p);
    if ((t == kLearner) != p->IsLearner()) types = false;
    // what is handed out is a copy: changing it must not change the node
    p->SetNext(p->Next() + 77);
    p->SetMatch(p->Match() + 33);
  });
  return types && w + "]" == f("pr");
}

struct AppState {
  uint64_t applied = 0;
  uint64_t digest = 7;
  raftpb::ConfState cs;
};

struct Node {
  uint64_t id = 0;
  Conf cf;
  std::shared_ptr<Store> st;
  std::unique_ptr<RawNode> rn;
  bool up = false;
  Obs obs;
  int stage = 0;          // 0 idle, 1 ready taken, 2 persisted, 3 sent, 4 applied
  std::shared_ptr<Ready> rd;
  std::string rdj;
  std::vector<std::pair<std::shared_ptr<Ready>, std::string>> past;   // what was handed out earlier
  uint64_t inc = 0;
  AppState app;
  std::map<uint64_t, AppState> hist;   // state after each applied index
  std::set<uint64_t> confs;            // indexes of applied configuration changes
  raftpb::HardState synced;            // hard state known to survive a crash
  std::vector<std::pair<uint64_t, bool>> reports;
  std::vector<uint64_t> founders;  // whom the application bootstraps the node with
};

class Recorder {
 public:
  Recorder(Out* out, uint64_t seed) : out_(out), seed_(seed), logger_(std::make_shared<ThrowLogger>()) {}

  std::shared_ptr<Logger> logger() { return logger_; }
  long events = 0;
  std::function<bool(Node&, const raftpb::ConfChangeV2&)> veto;   // does the application refuse this change?

  // Make a call on a node and record its effect.
  void Call(Node& nd, const std::string& ev, const std::string& args, const std::function<std::string()>& f,
            bool full = false) {
    events++;
    std::string head = "\"e\":\"" + ev + "\",\"n\":" + N(nd.id) + (args.empty() ? "" : "," + args);
    out_->Pending(head);
    std::string extra;
    // Only ticks look at the drawn election timeout.  For all other calls it is replaced by a
    // mark meanwhile, so that a new draw shows even if it gives the same value again.
    const int64_t mark = 1 << 30;
    bool marked = !full && ev != "tick" && ev != "tickq";
    int64_t rt = 0;
    if (marked) {
      rt = nd.rn->GetRaft()->RandomizedElectionTimeout();
      nd.rn->GetRaft()->SetRandomizedElectionTimeout(mark);
    }
    try {
      extra = f();
      bool drawn = false;
      if (marked) {
        drawn = nd.rn->GetRaft()->RandomizedElectionTimeout() != mark;
        if (!drawn) nd.rn->GetRaft()->SetRandomizedElectionTimeout(rt);
      }
      Obs o = Observe(*nd.rn, *nd.st);
      std::string line = "{" + head + (extra.empty() ? "" : "," + extra);
      line += ",\"d\":" + Delta(nd.obs, o, full) + ",\"hr\":" + B(nd.rn->HasReady());
      if (!StatusAgrees(*nd.rn, o)) line += ",\"sq\":false";
      Obs o2 = Observe(*nd.rn, *nd.st);     // observing must not have changed anything
      if (o2.f != o.f || o2.log != o.log || o2.msgs != o.msgs) line += ",\"sq\":false";
      bool reset = full || drawn || o.f["rt"] != nd.obs.f["rt"] || (!marked && (o.f["rl"] != nd.obs.f["rl"] || o.f["tm"] != nd.obs.f["tm"]));
      if (marked) line += ",\"rr\":" + B(drawn);
      nd.obs = std::move(o);
      if (reset) {
        // make the timeout a function of the seed
        int64_t v = nd.cf.et + static_cast<int64_t>(
            Mix(seed_ * 131 + nd.id * 17 + nd.inc, nd.rn->GetRaft()->Term() * 8 +
                static_cast<int>(nd.rn->GetRaft()->State()) + (events / 64) * 1000) % static_cast<uint64_t>(nd.cf.et));
        nd.rn->GetRaft()->SetRandomizedElectionTimeout(v);
        nd.obs.f["rt"] = NI(v);
        line += ",\"nr\":" + NI(v);
      }
      out_->Line(line + "}");
    } catch (const FatalError& e) {
      out_->Line("{" + head + ",\"x\":\"fatal\",\"why\":" + Q(e.what()) + "}");
      throw RunOver();
    }
  }

  void Note(const std::string& body) { out_->Line("{" + body + "}"); }

  static std::string St(const char* s) { return std::string("\"rc\":\"") + s + "\""; }
  static std::string Rc(const Status& s) {
    if (s.IsOK()) return St("ok");
    std::string t = s.Str();
    if (t == kErrProposalDropped) return St("dropped");
    if (t == kErrStepLocalMsg) return St("local");
    if (t == kErrStepPeerNotFound) return St("nopeer");
    return St("err");
  }

  std::string StJson(Store& st) {
    Obs o;
    bool pp = st.postpone;
    st.postpone = false;
    ObserveStorage(st, &o);
    st.postpone = pp;
    std::string sl = "[";
    for (size_t i = 0; i < o.slog.size(); i++) sl += (i ? "," : "") + o.slog[i];
    return "{\"sb\":" + o.f["sb"] + ",\"sbt\":" + o.f["sbt"] + ",\"sl\":" + sl + "],\"ss\":" + o.f["ss"] + ",\"hs\":" + o.f["hs"] + "}";
  }

  void Create(Node& nd, uint64_t applied) {
    nd.inc++;
    nd.st->postpone = false;
    nd.stage = 0;
    nd.rd.reset();
    nd.reports.clear();
    std::string args = "\"cf\":" + nd.cf.Json() + ",\"ap\":" + N(applied) + ",\"st\":" + StJson(*nd.st);
    Call(nd, "new", args, [&]() -> std::string {
      Raft::Config c;
      c.id = nd.id;
      c.election_tick = nd.cf.et;
      c.heartbeat_tick = nd.cf.ht;
      c.storage = nd.st;
      c.applied = applied;
      c.max_size_per_msg = nd.cf.maxmsg;
      c.max_committed_size_per_ready = nd.cf.maxcomm;
      c.max_uncommitted_entries_size = nd.cf.maxunc;
      c.max_inflight_msgs = nd.cf.infl;
      c.check_quorum = nd.cf.cq;
      c.pre_vote = nd.cf.pv;
      c.read_only_option = nd.cf.lease ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
      c.disable_proposal_forwarding = nd.cf.dpf;
      c.logger = logger_;
      nd.rn.reset();
      nd.rn = RawNode::New(c);
      return "";
    }, true);
    nd.up = true;
  }

  void Boot(Node& nd, const std::vector<uint64_t>& ids) {
    std::vector<Peer> peers;
    EntryPtrs es;
    for (size_t i = 0; i < ids.size(); i++) {
      peers.push_back(Peer{ids[i], "b" + std::to_string(ids[i])});
      raftpb::ConfChange cc;
      cc.set_type(raftpb::ConfChangeAddNode);
      cc.set_node_id(ids[i]);
      cc.set_context(peers.back().context);
      auto e = std::make_shared<raftpb::Entry>();
      e->set_type(raftpb::EntryConfChange);
      e->set_term(1);
      e->set_index(i + 1);
      e->set_data(cc.SerializeAsString());
      es.push_back(e);
    }
    Call(nd, "boot", "\"es\":" + EntsJson(es), [&] { return Rc(nd.rn->Bootstrap(peers)); });
  }

  void Tick(Node& nd) { Call(nd, "tick", "", [&] { nd.rn->Tick(); return St("ok"); }); }
  void TickQ(Node& nd) { Call(nd, "tickq", "", [&] { nd.rn->TickQuiesced(); return St("ok"); }); }
  void Camp(Node& nd) { Call(nd, "camp", "", [&] { return Rc(nd.rn->Campaign()); }); }
  void Step(Node& nd, const raftpb::Message& m) {
    auto c = std::make_shared<raftpb::Message>(m);
    Call(nd, "step", "\"m\":" + MsgJson(m), [&] { return Rc(nd.rn->Step(c)); });
  }
  void Prop(Node& nd, const std::string& d) {
    raftpb::Entry e;
    e.set_data(d);
    Call(nd, "prop", "\"en\":" + EntJson(e, true), [&] { return Rc(nd.rn->Propose(d)); });
  }
  void PropCC(Node& nd, const ConfChangeI& cc) {
    auto [type, data, ok] = cc.Marshal();
    raftpb::Entry e;
    e.set_type(type);
    e.set_data(data);
    Call(nd, "propcc", "\"en\":" + EntJson(e, true), [&] { return Rc(nd.rn->ProposeConfChange(cc)); });
  }
  void Read(Node& nd, const std::string& ctx, bool chk) {
    raftpb::Entry e;
    e.set_data(ctx);
    Call(nd, "ridx", "\"en\":" + EntJson(e, true) + ",\"ck\":" + B(chk), [&] { nd.rn->ReadIndex(ctx); return St("ok"); });
  }
  void Unreach(Node& nd, uint64_t to) {
    Call(nd, "unreach", "\"to\":" + N(to), [&] { nd.rn->ReportUnreachable(to); return St("ok"); });
  }
  void SnapSt(Node& nd, uint64_t to, bool fail) {
    Call(nd, "snapst", "\"to\":" + N(to) + ",\"rj\":" + B(fail), [&] {
      nd.rn->ReportSnapshot(to, fail ? kFailure : kFinish);
      return St("ok");
    });
  }
  void Xfer(Node& nd, uint64_t to) {
    Call(nd, "xfer", "\"to\":" + N(to), [&] { nd.rn->TransferLeader(to); return St("ok"); });
  }
  void Postpone(Node& nd, bool v) {
    nd.st->postpone = v;
    Note("\"e\":\"su\",\"n\":" + N(nd.id) + ",\"su\":" + B(v));
  }

  void TakeReady(Node& nd) {
    Call(nd, "rdy", "", [&] {
      auto pk = nd.rn->ReadyWithoutAccept();
      std::string pj = RdJson(*pk) + MsgsJson(pk->messages);
      std::string before = "[";
      for (size_t i = 0; i < nd.obs.msgs.size(); i++) before += (i ? "," : "") + nd.obs.msgs[i];
      before += "]";
      nd.rd = nd.rn->GetReady();
      if (nd.rd->String().empty()) throw std::runtime_error("a Ready without text");
      std::string rj = RdJson(*nd.rd), mj = MsgsJson(nd.rd->messages);
      nd.rdj = rj + mj;
      std::string r = "\"rd\":" + rj + ",\"pk\":" + B(pj == nd.rdj) + ",\"mq\":" + B(mj == before);
      bool cur = nd.rd->committed_entries.empty()
                     ? nd.rd->AppliedCursor() == (nd.rd->snapshot ? nd.rd->snapshot->metadata().index() : 0)
                     : nd.rd->AppliedCursor() == nd.rd->committed_entries.back()->index();
      if (!cur) r += ",\"sq\":false";
      return r;
    });
    nd.stage = 1;
  }
  void Persist(Node& nd) {
    Call(nd, "pst", "", [&] {
      bool sn = nd.rd->snapshot && nd.rd->snapshot->metadata().index() > 0;
      // the application writes its own copies
      if (sn) nd.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*nd.rd->snapshot));
      nd.st->Append(nd.rd->entries);
      if (!IsEmptyHardState(nd.rd->hard_state)) nd.st->SetHardState(nd.rd->hard_state);
      if (sn || nd.rd->must_sync) nd.synced = std::get<0>(nd.st->InitialState());
      return std::string();
    });
    nd.stage = 2;
  }
  // Hand the messages to the network.
  std::vector<raftpb::Message> SendOut(Node& nd) {
    std::vector<raftpb::Message> r;
    for (auto& m : nd.rd->messages) r.push_back(*m);
    Note("\"e\":\"snd\",\"n\":" + N(nd.id));
    nd.stage = 3;
    return r;
  }
  void Remember(Node& nd) { nd.hist[nd.app.applied] = nd.app; }
  void RestoreApp(Node& nd, const raftpb::Snapshot& s) {
    nd.app.applied = s.metadata().index();
    nd.app.cs = s.metadata().conf_state();
    nd.app.digest = s.data().size() > 1 ? strtoull(s.data().c_str() + 1, nullptr, 16) : 7;
    Remember(nd);
  }
  void Apply(Node& nd) {
    if (nd.rd->snapshot && nd.rd->snapshot->metadata().index() > 0) RestoreApp(nd, *nd.rd->snapshot);
    for (auto& e : nd.rd->committed_entries) {
      raftpb::ConfChangeV2 cc;
      if (e->type() == raftpb::EntryNormal) {
        if (!e->data().empty()) nd.app.digest = (Mix(nd.app.digest, HashStr(e->data())) & 0xffffffffull);
      } else if (DecodeCC(*e, &cc)) {
        bool rejected = cc.context() == "rej" || (veto && veto(nd, cc));
        nd.confs.insert(e->index());
        if (!rejected) {
          Call(nd, "acc", "\"i\":" + N(e->index()) + ",\"cc\":" + CCJson(cc), [&] {
            if (e->type() == raftpb::EntryConfChange) {
              raftpb::ConfChange c1;
              c1.ParseFromString(e->data());
              nd.app.cs = nd.rn->ApplyConfChange(c1);
            } else {
              nd.app.cs = nd.rn->ApplyConfChange(cc);
            }
            return "\"cs\":" + CSJson(nd.app.cs);
          });
        }
      }
      nd.app.applied = e->index();
      Remember(nd);
    }
    nd.stage = 4;
  }
  void Advance(Node& nd) {
    bool same = RdJson(*nd.rd) + MsgsJson(nd.rd->messages) == nd.rdj;
    for (auto& p : nd.past) same = same && RdJson(*p.first) + MsgsJson(p.first->messages) == p.second;
    if (nd.past.size() >= 3) nd.past.erase(nd.past.begin());
    if (nd.rdj.size() < 20000) nd.past.emplace_back(nd.rd, nd.rdj);
    Call(nd, "adv", "\"ok\":" + B(same) + ",\"ai\":" + N(nd.app.applied) + ",\"dg\":" + Q(Hex(nd.app.digest)),
         [&] { nd.rn->Advance(); return std::string(); });
    nd.rd.reset();
    nd.stage = 0;
  }

  // Application-level snapshot at an index it has applied.
  void MakeSnapshot(Node& nd, uint64_t i, bool nullcs) {
    auto it = nd.hist.find(i);
    if (it == nd.hist.end()) return;
    AppState a = it->second;
    std::string data = "s" + Hex(a.digest);
    nd.synced = std::get<0>(nd.st->InitialState());
    auto before = std::get<0>(nd.st->MemoryStorage::SnapShot());
    std::string b = SnapJson(*before);
    Call(nd, "snapc", "\"i\":" + N(i) + ",\"dg\":" + Q(data) + ",\"cs\":" + CSJson(a.cs) + ",\"nc\":" + B(nullcs), [&] {
      auto [s, st] = nd.st->CreateSnapshot(i, nullcs ? nullptr : &a.cs, data);
      std::string r = Rc(st);
      if (st.IsOK()) r += ",\"sr\":" + SnapJson(*s);
      return r + ",\"im\":" + B(SnapJson(*before) == b);
    });
  }
  void Compact(Node& nd, uint64_t k) {
    nd.synced = std::get<0>(nd.st->InitialState());
    Call(nd, "compact", "\"k\":" + N(k), [&] { return Rc(nd.st->Compact(k)); });
  }
  void Crash(Node& nd) {
    nd.up = false;
    nd.rn.reset();
    nd.rd.reset();
    nd.stage = 0;
    Note("\"e\":\"down\",\"n\":" + N(nd.id));
  }
  Out* out() { return out_; }

 private:
  Out* out_;
  uint64_t seed_;
  std::shared_ptr<Logger> logger_;
};

// Run `body' in a child process; a crash or hang becomes a line of the trace.
#ifdef COVERAGE
extern "C" void __gcov_dump();
#endif
// Runs body in a process of its own; false if it hung.
inline bool Isolated(int fd, Shared* sh, int seconds, const std::function<void(Out*)>& body) {
  sh->len = 0;
  pid_t pid = fork();
  if (pid == 0) {
    // processor time decides whether a call hangs; the wall clock only catches a deadlock
    struct itimerval tv = {{0, 0}, {seconds, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(4 * seconds);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl = {1ull << 30, 1ull << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
#endif
    Out out(fd, sh);
    try {
      body(&out);
    } catch (const RunOver&) {
    } catch (const std::exception& e) {
      abort();
    }
#ifdef COVERAGE
    __gcov_dump();
#endif
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return true;
  std::string x = WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGPROF) ? "hang" : "crash";
  std::string head = sh->len > 0 ? std::string(sh->buf, sh->len) : "\"e\":\"die\",\"n\":0";
  std::string line = "{" + head + ",\"x\":\"" + x + "\",\"why\":\"status " + std::to_string(status) + "\"}\n";
  if (write(fd, line.data(), line.size()) < 0) exit(7);
  return x != "hang";
}
}  // namespace h
