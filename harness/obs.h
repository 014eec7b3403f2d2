// Observation of a real node through the library's public API, rendered as JSON.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "src/raftpb/confchange.h"
#include "src/rawnode.h"
#include "src/util.h"

namespace h {
using namespace craft;

struct FatalError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// A panic of the library is turned into an exception.
class ThrowLogger : public Logger {
 public:
  ThrowLogger() : Logger(LogLevel::kFatal) {}
  // Every message is formatted (a bad format is a crash); a fatal one ends the call.
  void Log(LogLevel level, const char* format, ...) override {
    va_list ap;
    va_start(ap, format);
    char buf[4096];
    vsnprintf(buf, sizeof(buf), format, ap);
    va_end(ap);
    if (level == LogLevel::kFatal) throw FatalError(buf);
  }
  void Logv(LogLevel level, const char* format, va_list ap) override {
    char buf[4096];
    vsnprintf(buf, sizeof(buf), format, ap);
    if (level == LogLevel::kFatal) throw FatalError(buf);
  }
};

inline std::string Q(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c < 32 || c >= 127 || c == '"' || c == '\\') {
      char b[8];
      snprintf(b, sizeof(b), "%%%02x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}
inline std::string B(bool b) { return b ? "true" : "false"; }
// Some executions use ids, terms and indexes above this base: nothing may depend on their
// size.  They are shown relative to it, so that one cut down to 32 bits or rounded to a
// floating point number shows as a different value.
constexpr uint64_t kBase = (1ull << 55) + 0x80000000ull + 1000000ull;
// TLC integers are 32 bit: everything above the cap stands for "huge".
inline std::string N(uint64_t v) {
  if (v >= kBase) v -= kBase;
  if (v > 999999999ull) return "999999999";
  return std::to_string(v);
}
inline std::string NI(int64_t v) {
  if (v < -999999999) v = -999999999;
  if (v > 999999999) v = 999999999;
  return std::to_string(v);
}

template <class C, class F>
std::string Arr(const C& c, F f) {
  std::string r = "[";
  bool first = true;
  for (auto& x : c) {
    if (!first) r += ",";
    first = false;
    r += f(x);
  }
  return r + "]";
}

inline std::string CCJson(const raftpb::ConfChangeV2& cc) {
  std::string r = "{\"tr\":" + std::to_string(static_cast<int>(cc.transition())) + ",\"ch\":[";
  for (int i = 0; i < cc.changes_size(); i++) {
    if (i) r += ",";
    r += "{\"y\":" + std::to_string(static_cast<int>(cc.changes(i).type())) +
         ",\"n\":" + N(cc.changes(i).node_id()) + "}";
  }
  return r + "]}";
}

// Decode a conf change entry; returns false for a normal or malformed entry.
inline bool DecodeCC(const raftpb::Entry& e, raftpb::ConfChangeV2* out) {
  if (e.type() == raftpb::EntryType::EntryConfChange) {
    raftpb::ConfChange cc;
    if (!cc.ParseFromString(e.data())) return false;
    auto ch = out->add_changes();
    ch->set_type(cc.type());
    ch->set_node_id(cc.node_id());
    out->set_context(cc.context());
    return true;
  }
  if (e.type() == raftpb::EntryType::EntryConfChangeV2) return out->ParseFromString(e.data());
  return false;
}

// `b' is the encoded size; it only matters for entries of a log (nolog: 0).
inline std::string EntJson(const raftpb::Entry& e, bool nolog = false) {
  std::string r = "{\"i\":" + N(e.index()) + ",\"t\":" + N(e.term()) +
                  ",\"y\":" + std::to_string(static_cast<int>(e.type())) +
                  ",\"z\":" + N(e.data().size()) + ",\"b\":" + (nolog ? "0" : N(e.ByteSizeLong()));
  raftpb::ConfChangeV2 cc;
  if (e.type() != raftpb::EntryType::EntryNormal && DecodeCC(e, &cc)) {
    r += ",\"d\":" + Q(cc.context()) + ",\"c\":" + CCJson(cc);
  } else {
    r += ",\"d\":" + Q(e.data()) + ",\"c\":{\"tr\":0,\"ch\":[]}";
  }
  return r + "}";
}
inline std::string EntsJson(const EntryPtrs& es) {
  return Arr(es, [](const EntryPtr& e) { return EntJson(*e); });
}

template <class L>
std::string Ids(const L& l) {
  std::set<uint64_t> s(l.begin(), l.end());
  return Arr(s, [](uint64_t v) { return N(v); });
}
inline std::string CSJson(const raftpb::ConfState& cs) {
  return "{\"v\":" + Ids(cs.voters()) + ",\"vo\":" + Ids(cs.voters_outgoing()) +
         ",\"l\":" + Ids(cs.learners()) + ",\"ln\":" + Ids(cs.learners_next()) +
         ",\"al\":" + B(cs.auto_leave()) + "}";
}
inline std::string SnapJson(const raftpb::Snapshot& s) {
  return "{\"i\":" + N(s.metadata().index()) + ",\"t\":" + N(s.metadata().term()) +
         ",\"d\":" + Q(s.data()) + ",\"c\":" + CSJson(s.metadata().conf_state()) + "}";
}
inline std::string HSJson(const raftpb::HardState& hs) {
  return "{\"tm\":" + N(hs.term()) + ",\"vt\":" + N(hs.vote()) + ",\"cm\":" + N(hs.commit()) + "}";
}

inline std::string MsgJson(const raftpb::Message& m) {
  bool nolog = m.type() == raftpb::MsgProp || m.type() == raftpb::MsgReadIndex ||
               m.type() == raftpb::MsgReadIndexResp;
  return "{\"y\":\"" + raftpb::MessageType_Name(m.type()) + "\",\"to\":" + N(m.to()) +
         ",\"fr\":" + N(m.from()) + ",\"tm\":" + N(m.term()) + ",\"lt\":" + N(m.logterm()) +
         ",\"ix\":" + N(m.index()) + ",\"cm\":" + N(m.commit()) + ",\"rj\":" + B(m.reject()) +
         ",\"rh\":" + N(m.rejecthint()) + ",\"cx\":" + Q(m.context()) + ",\"en\":" +
         Arr(m.entries(), [&](const raftpb::Entry& e) { return EntJson(e, nolog); }) + ",\"sn\":" +
         (m.has_snapshot() ? "[" + SnapJson(m.snapshot()) + "]" : "[]") + "}";
}

inline const char* RoleName(RaftStateType t) {
  switch (t) {
    case kFollower: return "F";
    case kCandidate: return "C";
    case kLeader: return "L";
    case kPreCandidate: return "P";
    default: return "X";
  }
}

// What one node shows: scalar fields as JSON text, list fields element-wise.
struct Obs {
  std::map<std::string, std::string> f;
  uint64_t base = 0, sbase = 0;
  std::vector<std::string> log, slog, msgs;
};

inline std::string ProgressJson(uint64_t id, Progress& p) {
  std::string s = "{\"id\":" + N(id) + ",\"m\":" + N(p.Match()) + ",\"n\":" + N(p.Next());
  const char* st = "X";
  switch (p.State()) {
    case StateType::kProbe: st = "P"; break;
    case StateType::kReplicate: st = "R"; break;
    case StateType::kSnapshot: st = "S"; break;
    default: break;
  }
  s += ",\"s\":\"" + std::string(st) + "\",\"ps\":" + N(p.PendingSnapshot()) +
       ",\"ra\":" + B(p.RecentActive()) + ",\"sn\":" + B(p.ProbeSent()) +
       ",\"ln\":" + B(p.IsLearner()) + ",\"if\":[";
  auto* inf = p.GetInflights();
  auto& buf = inf->Buffer();
  for (int64_t i = 0; i < inf->Count(); i++) {
    int64_t k = inf->Start() + i;
    if (inf->Size() > 0) k %= inf->Size();
    if (i) s += ",";
    s += (k >= 0 && k < static_cast<int64_t>(buf.size())) ? N(buf[k]) : "999999999";
  }
  return s + "]}";
}

inline void ObserveStorage(MemoryStorage& st, Obs* o) {
  auto first = std::get<0>(st.FirstIndex());
  auto last = std::get<0>(st.LastIndex());
  o->sbase = first - 1;
  o->f["sb"] = N(first - 1);
  o->f["sbt"] = N(std::get<0>(st.Term(first - 1)));
  o->slog.clear();
  if (last >= first) {
    auto [es, s] = st.Entries(first, last + 1, std::numeric_limits<uint64_t>::max());
    for (auto& e : es) o->slog.push_back(EntJson(*e));
  }
  o->f["ss"] = SnapJson(*std::get<0>(st.MemoryStorage::SnapShot()));
  o->f["hs"] = HSJson(std::get<0>(st.InitialState()));
}

inline Obs Observe(RawNode& rn, MemoryStorage& st, bool hide_reads = false) {
  Obs o;
  Raft& r = *rn.GetRaft();
  auto& l = *r.GetRaftLog();
  o.f["tm"] = N(r.Term());
  o.f["vt"] = N(r.Vote());
  o.f["ld"] = N(r.Lead());
  o.f["rl"] = std::string("\"") + RoleName(r.State()) + "\"";
  o.f["il"] = B(r.IsLearner());
  o.f["cm"] = N(l.Committed());
  o.f["ap"] = N(l.Applied());
  o.base = l.FirstIndex() - 1;
  o.f["ba"] = N(o.base);
  o.f["bt"] = N(std::get<0>(l.Term(o.base)));
  for (auto& e : l.AllEntries()) o.log.push_back(EntJson(*e));
  o.f["un"] = N(l.UnstableEntries().size());
  auto us = l.UnstableSnapshot();
  o.f["us"] = SnapJson(us ? *us : raftpb::Snapshot());
  auto& cfg = r.GetTracker().GetConfig();
  o.f["cg"] = "{\"inc\":" + Ids(cfg.voters.Incoming().IDs()) + ",\"out\":" +
              Ids(cfg.voters.Outgoing().IDs()) + ",\"lr\":" + Ids(cfg.learners) +
              ",\"ln\":" + Ids(cfg.learners_next) + ",\"al\":" + B(cfg.auto_leave) + "}";
  o.f["pr"] = Arr(r.GetTracker().GetProgressMap(),
                  [](const std::pair<const uint64_t, ProgressPtr>& p) { return ProgressJson(p.first, *p.second); });
  o.f["vo"] = Arr(r.GetTracker().Votes(), [](const std::pair<const uint64_t, bool>& p) {
    return "{\"id\":" + N(p.first) + ",\"v\":" + B(p.second) + "}";
  });
  o.f["xf"] = N(r.LeadTransferee());
  o.f["pc"] = N(r.PendingConfIndex());
  o.f["uz"] = N(r.UncommittedSize());
  o.f["ee"] = NI(r.ElectionElapsed());
  o.f["rt"] = NI(r.RandomizedElectionTimeout());
  auto* ro = r.GetReadOnly();
  auto& pend = ro->GetPendingReadIndex();
  o.f["ro"] = Arr(ro->GetReadIndexQueue(), [&](const std::string& c) {
    auto it = pend.find(c);
    if (it == pend.end()) return "{\"c\":" + Q(c) + ",\"f\":0,\"i\":0,\"a\":[],\"en\":[]}";
    auto& s = *it->second;
    std::vector<uint64_t> acks;
    for (auto& a : s.acks) if (a.second) acks.push_back(a.first);
    return "{\"c\":" + Q(c) + ",\"f\":" + N(s.req->from()) + ",\"i\":" + N(s.index) + ",\"a\":" + Ids(acks) +
           ",\"en\":" + Arr(s.req->entries(), [](const raftpb::Entry& e) { return EntJson(e, true); }) + "}";
  });
  o.f["rs"] = Arr(r.GetReadStates(), [](const ReadState& s) {
    return "{\"i\":" + N(s.index) + ",\"c\":" + Q(s.request_ctx) + "}";
  });
  for (auto& m : r.Msgs()) o.msgs.push_back(MsgJson(*m));
  ObserveStorage(st, &o);
  return o;
}

inline std::string LogDelta(uint64_t b0, const std::vector<std::string>& a, uint64_t b1,
                            const std::vector<std::string>& b, bool full) {
  // entries up to index k are those of the old log, the rest is listed
  uint64_t k = b1;
  size_t j = 0;
  if (!full) {
    while (j < b.size()) {
      uint64_t idx = b1 + 1 + j;
      if (idx <= b0 || idx - b0 > a.size() || a[idx - b0 - 1] != b[j]) break;
      j++;
      k = idx;
    }
  }
  std::string r = "{\"k\":" + N(k) + ",\"a\":[";
  for (size_t x = j; x < b.size(); x++) {
    if (x > j) r += ",";
    r += b[x];
  }
  return r + "]}";
}

// The changed fields of `b` relative to `a` (all of them if full).
inline std::string Delta(const Obs& a, const Obs& b, bool full) {
  std::string r = "{";
  bool first = true;
  auto add = [&](const std::string& k, const std::string& v) {
    if (!first) r += ",";
    first = false;
    r += "\"" + k + "\":" + v;
  };
  for (auto& kv : b.f) {
    auto it = a.f.find(kv.first);
    if (full || it == a.f.end() || it->second != kv.second) add(kv.first, kv.second);
  }
  if (full || a.base != b.base || a.log != b.log) add("lg", LogDelta(a.base, a.log, b.base, b.log, full));
  if (full || a.sbase != b.sbase || a.slog != b.slog)
    add("sl", LogDelta(a.sbase, a.slog, b.sbase, b.slog, full));
  if (full || a.msgs != b.msgs) {
    bool prefix = !full && b.msgs.size() >= a.msgs.size() &&
                  std::equal(a.msgs.begin(), a.msgs.end(), b.msgs.begin());
    std::string l = "[";
    for (size_t i = prefix ? a.msgs.size() : 0; i < b.msgs.size(); i++) {
      if (l.size() > 1) l += ",";
      l += b.msgs[i];
    }
    add(prefix ? "mo" : "ms", l + "]");
  }
  return r + "}";
}
}  // namespace h
