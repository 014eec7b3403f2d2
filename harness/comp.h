// The library's components one by one: each line carries the state before an operation,
// the operation, its result and the state after it, and the answers to queries.
#pragma once
#include <atomic>
#include <csignal>
#include <thread>

#include "core.h"
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/log.h"
#include "src/quorum/joint.h"
#include "src/quorum/majority.h"
#include "src/raftpb/confstate.h"
#include "src/read_only.h"
#include "src/tracker/inflights.h"
#include "src/tracker/progress.h"
#include "src/tracker/tracker.h"

namespace h {

class Comp {
 public:
  Comp(Out* out, Rng* rng) : out_(out), g_(*rng), lg_(std::make_shared<ThrowLogger>()), salt_(g_.Below(1000000)), bulk_(g_.P(0.06)) {
    ib_ = g_.P(0.3) ? kBase : 0;
    xb_ = g_.P(0.3) ? kBase : 0;
    tb_ = g_.P(0.3) ? kBase : 0;
  }

  void Run(const std::string& kind, int steps) {
    if (kind == "quorum") Quorum(steps);
    else if (kind == "change") Change(steps);
    else if (kind == "restore") RestoreCfg(steps);
    else if (kind == "log") Log(steps);
    else if (kind == "store") StoreOps(steps);
    else if (kind == "progress") ProgressOps(steps);
    else if (kind == "inflights") InflightsOps(steps);
    else if (kind == "reads") Reads(steps);
    else if (kind == "config") ConfigOps(steps);
    else if (kind == "ccconv") CCConv(steps);
    else if (kind == "util") UtilOps();
    else if (kind == "shared") Shared(steps);
    else if (kind == "stop") Stop(steps);
    else abort();
  }
  // All small cases of quorum arithmetic.
  void QuorumAll(int part, int parts) {
    long k = 0;
    for (int ci = 0; ci < 8; ci++)
      for (int co = 0; co < 8; co++)
        for (int a = 0; a < 64; a++) {      // per id: nothing / 1 / 2 / 3
          if (k++ % parts != part) continue;
          std::set<uint64_t> I, O;
          std::map<uint64_t, uint64_t> ack;
          std::map<uint64_t, bool> votes;
          for (int i = 0; i < 3; i++) {
            if (ci >> i & 1) I.insert(i + 1);
            if (co >> i & 1) O.insert(i + 1);
            int v = a >> (2 * i) & 3;
            if (v) ack[i + 1] = v;
            if (v == 1) votes[i + 1] = true;
            if (v == 2) votes[i + 1] = false;
          }
          OneQuorum(I, O, ack, votes);
        }
  }

 private:
  // an index or term: nothing (0) or one above the base
  uint64_t Ix(uint64_t lo, uint64_t hi) {
    if (xb_ && lo < xb_ && hi > xb_) return g_.P(0.12) ? lo : xb_ + g_.In(1, hi - xb_);
    return g_.In(lo, hi);
  }
  uint64_t Tm(uint64_t lo, uint64_t hi) {
    uint64_t v = g_.In(lo, hi);
    return v == 0 ? 0 : tb_ + v;
  }
  // op(): performs the operation and returns the rest of the line
  bool Line(const std::string& head, const std::function<std::string()>& f) {
    out_->Pending("\"e\":\"comp\",\"n\":0," + head);
    try {
      std::string r = f();
      out_->Line("{\"e\":\"comp\",\"n\":0," + head + (r.empty() ? "" : "," + r) + "}");
      return true;
    } catch (const FatalError& e) {
      out_->Line("{\"e\":\"comp\",\"n\":0," + head + ",\"x\":\"fatal\",\"why\":" + Q(e.what()) + "}");
      return false;
    }
  }
  static std::string Op(const std::string& o) { return "\"op\":\"" + o + "\""; }
  static std::string VS(VoteState v) { return v == kVoteWon ? "\"won\"" : v == kVoteLost ? "\"lost\"" : v == kVotePending ? "\"pending\"" : "\"?\""; }
  static std::string Code(const Status& s) {
    if (s.IsOK()) return "\"ok\"";
    std::string t = s.Str();
    if (t == kErrCompacted) return "\"compacted\"";
    if (t == kErrUnavailable) return "\"unavailable\"";
    if (t == kErrSnapOutOfDate) return "\"outofdate\"";
    if (t == kErrSnapshotTemporarilyUnavailable) return "\"later\"";
    return "\"err\"";
  }
  static std::string AckJson(const std::map<uint64_t, uint64_t>& m) {
    return Arr(m, [](const std::pair<const uint64_t, uint64_t>& p) { return "{\"id\":" + N(p.first) + ",\"v\":" + N(p.second) + "}"; });
  }
  static std::string VotesJson(const std::map<uint64_t, bool>& m) {
    return Arr(m, [](const std::pair<const uint64_t, bool>& p) { return "{\"id\":" + N(p.first) + ",\"v\":" + B(p.second) + "}"; });
  }
  static std::string CfgJson(const ProgressTracker::Config& c) {
    return "{\"inc\":" + Ids(c.voters.Incoming().IDs()) + ",\"out\":" + Ids(c.voters.Outgoing().IDs()) + ",\"lr\":" +
           Ids(c.learners) + ",\"ln\":" + Ids(c.learners_next) + ",\"al\":" + B(c.auto_leave) + "}";
  }
  static std::string PrsJson(const ProgressMap& m) {
    return Arr(m, [](const std::pair<const uint64_t, ProgressPtr>& p) { return ProgressJson(p.first, *p.second); });
  }
  static std::string List(const std::vector<uint64_t>& v) { return Arr(v, [](uint64_t x) { return N(x); }); }

  // ------------------------------------------------------------- quorums
  void OneQuorum(const std::set<uint64_t>& I, const std::set<uint64_t>& O, const std::map<uint64_t, uint64_t>& ack,
                 const std::map<uint64_t, bool>& votes) {
    Line(Op("quorum.q") + ",\"inc\":" + Ids(I) + ",\"out\":" + Ids(O) + ",\"ack\":" + AckJson(ack) + ",\"v\":" + VotesJson(votes), [&] {
      MapAckIndexer l(ack);
      JointConfig j(I, O);
      MajorityConfig m(I);
      return "\"mc\":" + Big(m.CommittedIndex(l)) + ",\"jc\":" + Big(j.CommittedIndex(l)) + ",\"mv\":" + VS(m.VoteResult(votes)) +
             ",\"jv\":" + VS(j.VoteResult(votes)) + ",\"ids\":" + Ids(j.IDs());
    });
  }
  // TLA+ side: NoLimit stands for "no voters"
  static std::string Big(uint64_t v) { return v == UINT64_MAX ? "1000000000" : N(v); }
  std::set<uint64_t> IdSet(int n, double p) {
    std::set<uint64_t> s;
    for (int i = 1; i <= n; i++) if (g_.P(p)) s.insert(ib_ + i);
    return s;
  }
  void Quorum(int steps) {
    for (int k = 0; k < steps; k++) {
      int n = g_.P(0.04) ? g_.In(13, 40) : g_.In(1, 12);
      auto I = IdSet(n, g_.P(0.5) ? 0.9 : 0.5), O = g_.P(0.5) ? std::set<uint64_t>() : IdSet(n, 0.6);
      std::map<uint64_t, uint64_t> ack;
      std::map<uint64_t, bool> votes;
      uint64_t hi = g_.Pick(std::vector<uint64_t>{2, 5, 60, 100000});
      double yes = g_.Pick(std::vector<double>{0.2, 0.5, 0.9}), have = g_.Pick(std::vector<double>{0.5, 0.8, 1});
      for (int i = 1; i <= n; i++) {
        if (g_.P(have)) ack[ib_ + i] = xb_ + g_.In(0, hi);
        if (g_.P(have)) votes[ib_ + i] = g_.P(yes);
      }
      OneQuorum(I, O, ack, votes);
      if (g_.P(0.5)) Tracker(I, O, ack, votes);
    }
  }
  // The tracker on top: learners do not count, in votes, commit index and activity.
  void Tracker(std::set<uint64_t> I, std::set<uint64_t> O, const std::map<uint64_t, uint64_t>& ack, const std::map<uint64_t, bool>& votes) {
    if (I.empty()) return;
    ProgressTracker::Config c;
    c.voters = JointConfig(I, O);
    ProgressMap prs;
    for (uint64_t id = ib_ + 1; id <= ib_ + 13; id++) {
      bool v = I.count(id) || O.count(id);
      bool ln = !v && g_.P(0.5);
      if (!v && !ln) continue;
      if (ln) c.learners.insert(id);
      auto it = ack.find(id);
      uint64_t m = it == ack.end() ? 0 : it->second;
      prs[id] = std::make_shared<Progress>(lg_, m + 1, m, 3, ln, g_.P(0.6));
    }
    for (auto id : O) if (!I.count(id) && g_.P(0.2)) c.learners_next.insert(id);
    c.auto_leave = !O.empty() && g_.P(0.5);
    Line(Op("quorum.tracker") + ",\"cg\":" + CfgJson(c) + ",\"pr\":" + PrsJson(prs) + ",\"v\":" + VotesJson(votes), [&] {
      ProgressTracker t(3);
      t.SetConfig(c);
      t.SetProgressMap(prs);
      for (auto& v : votes) t.RecordVote(v.first, v.second);
      for (auto& v : votes) if (g_.P(0.3)) t.RecordVote(v.first, !v.second);     // the first answer counts
      auto [gr, rj, res] = t.TallyVotes();
      std::string vis = "[";
      t.Visit([&](uint64_t id, ProgressPtr&) { vis += (vis.size() > 1 ? "," : "") + N(id); });
      return "\"cm\":" + N(t.Committed()) + ",\"qa\":" + B(t.QuorumActive()) + ",\"gr\":" + NI(gr) + ",\"rj\":" + NI(rj) + ",\"res\":" + VS(res) +
             ",\"one\":" + B(t.IsSingleton()) + ",\"vn\":" + List(t.VoterNodes()) + ",\"ln\":" + List(t.LearnerNodes()) + ",\"vis\":" + vis +
             "],\"cs\":" + CSJson(t.ConfState()) + ",\"same\":" + B(PrsJson(t.GetProgressMap()) == PrsJson(prs));
    });
  }

  // ------------------------------------------------- configuration changes
  std::vector<raftpb::ConfChangeSingle> Changes(int n) {
    std::vector<raftpb::ConfChangeSingle> r;
    for (int i = 0; i < n; i++) {
      raftpb::ConfChangeSingle c;
      int t = g_.Below(20);
      c.set_type(t < 8 ? raftpb::ConfChangeAddNode : t < 13 ? raftpb::ConfChangeRemoveNode : t < 18 ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeUpdateNode);
      c.set_node_id(g_.P(0.05) ? 0 : ib_ + g_.In(1, 4));
      r.push_back(c);
    }
    return r;
  }
  static std::string ChJson(const std::vector<raftpb::ConfChangeSingle>& cs) {
    return Arr(cs, [](const raftpb::ConfChangeSingle& c) { return "{\"y\":" + std::to_string(static_cast<int>(c.type())) + ",\"n\":" + N(c.node_id()) + "}"; });
  }
  void Change(int steps) {
    ProgressTracker::Config cfg;
    ProgressMap prs;
    uint64_t last = xb_ + g_.In(1, 9);
    for (int k = 0; k < steps; k++) {
      ProgressTracker t(3);
      t.SetConfig(cfg);
      t.SetProgressMap(prs);
      Changer chg(lg_, t, last);
      bool joint = cfg.Joint();
      int what = joint ? g_.Pick(std::vector<int>{0, 1, 2, 2, 2}) : g_.Pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2});
      auto ccs = Changes(what == 0 ? g_.Pick(std::vector<int>{0, 1, 1, 1, 1, 2, 3}) : g_.In(0, 4));
      bool al = g_.P(0.5);
      std::string cj = CfgJson(cfg), pj = PrsJson(prs);
      const char* names[] = {"simple", "enter", "leave"};
      Line(Op(std::string("change.") + names[what]) + ",\"cg\":" + cj + ",\"pr\":" + pj + ",\"ch\":" + ChJson(ccs) + ",\"al\":" + B(al) + ",\"last\":" + N(last), [&] {
        auto [c2, p2, st] = what == 0 ? chg.Simple(ccs) : what == 1 ? chg.EnterJoint(al, ccs) : chg.LeaveJoint();
        std::string r = "\"rc\":" + Code(st) + ",\"same\":" + B(CfgJson(cfg) == cj && PrsJson(prs) == pj && CfgJson(t.GetConfig()) == cj);
        if (st.IsOK()) {
          r += ",\"cg2\":" + CfgJson(c2) + ",\"pr2\":" + PrsJson(p2);
          // the changed map must be independent of the one it came from
          for (auto& p : p2) p.second->SetNext(p.second->Next() + 1);
          r += ",\"own\":" + B(PrsJson(prs) == pj);
          for (auto& p : p2) p.second->SetNext(p.second->Next() - 1);
          cfg = c2;
          prs = p2;
        }
        return r;
      });
      // give members some individual progress, so that keeping it is observable
      for (auto& p : prs) {
        if (!g_.P(0.3)) continue;
        p.second = p.second->Clone();
        p.second->SetMatch(Ix(0, last));
        p.second->SetNext(p.second->Match() + g_.In(1, 3));
        p.second->SetRecentActive(g_.P(0.5));
        if (g_.P(0.3)) {
          p.second->BecomeReplicate();
          if (!p.second->GetInflights()->Full()) p.second->GetInflights()->Add(last + k);
        }
      }
      if (g_.P(0.3)) last += g_.In(1, 3);
      if (g_.P(0.03)) {
        cfg = ProgressTracker::Config();
        prs.clear();
      }
    }
  }
  raftpb::ConfState SomeCS() {
    raftpb::ConfState cs;
    int n = g_.In(1, 6);
    bool joint = g_.P(0.55), in = false;
    auto add = [&](uint64_t id, int r) {
      if (r == 1 || r == 4) cs.add_voters(id), in = true;
      if (r == 2) cs.add_learners(id);
      if (r >= 3) cs.add_voters_outgoing(id);
      if (r == 5) cs.add_learners_next(id);
    };
    std::vector<uint64_t> ids;
    for (int i = 1; i <= n; i++) ids.push_back(ib_ + i);
    for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[g_.Below(i)]);    // any order
    for (auto id : ids) add(id, joint ? g_.Pick(std::vector<int>{0, 1, 2, 3, 4, 4, 5}) : g_.Pick(std::vector<int>{0, 1, 1, 2}));
    if (!in) add(ib_ + n + 1, cs.voters_outgoing_size() ? 4 : 1);
    if (cs.voters_outgoing_size()) cs.set_auto_leave(g_.P(0.5));
    return cs;
  }
  void RestoreCfg(int steps) {
    for (int k = 0; k < steps; k++) {
      auto cs = g_.P(0.03) ? raftpb::ConfState() : SomeCS();
      uint64_t last = xb_ + g_.In(xb_ ? 1 : 0, 20);
      Line(Op("restore.cs") + ",\"c\":" + CSJson(cs) + ",\"last\":" + N(last), [&] {
        ProgressTracker t(3);
        Changer chg(lg_, t, last);
        auto [c2, p2, st] = Restore(chg, cs);
        std::string r = "\"rc\":" + Code(st);
        if (st.IsOK()) {
          ProgressTracker t2(3);
          t2.SetConfig(c2);
          t2.SetProgressMap(p2);
          auto back = t2.ConfState();
          r += ",\"cg2\":" + CfgJson(c2) + ",\"pr2\":" + PrsJson(p2) + ",\"cs2\":" + CSJson(back) + ",\"eq\":" + B(back == cs);
        }
        return r;
      });
    }
  }
  void CCConv(int steps) {
    for (int k = 0; k < steps; k++) {
      auto ccs = Changes(g_.In(0, 3));
      raftpb::ConfChangeV2 v2;
      for (auto& c : ccs) *v2.add_changes() = c;
      v2.set_transition(static_cast<raftpb::ConfChangeTransition>(g_.Below(3)));
      if (g_.P(0.4)) v2.set_context(g_.P(0.2) ? "" : "ctx");
      bool v1 = g_.P(0.4) && ccs.size() == 1;
      raftpb::ConfChange c1;
      if (v1) {
        c1.set_type(ccs[0].type());
        c1.set_node_id(ccs[0].node_id());
        c1.set_context(v2.context());
        v2.set_transition(raftpb::ConfChangeTransitionAuto);
      }
      Line(Op("change.conv") + ",\"cc\":" + CCJson(v2) + ",\"v1\":" + B(v1) + ",\"ctx\":" + Q(v2.context()), [&] {
        auto i = v1 ? ConfChangeI(c1) : ConfChangeI(v2);
        auto [ty, data, ok] = i.Marshal();
        raftpb::Entry e;
        e.set_type(ty);
        e.set_data(data);
        raftpb::ConfChangeV2 dec, as = i.AsV2(), tmp = v2;
        bool dok = DecodeCC(e, &dec);
        auto [al, uj] = EnterJoint(lg_, v2);
        bool lv = LeaveJoint(tmp);
        std::string s = ConfChangesToString(ccs);
        auto [ccs2, st] = ConfChangesFromString(s);
        return "\"ty\":" + std::to_string(static_cast<int>(ty)) + ",\"ok\":" + B(ok && dok) + ",\"dec\":" + CCJson(dec) + ",\"dx\":" + Q(dec.context()) +
               ",\"as\":" + CCJson(as) + ",\"ax\":" + Q(as.context()) + ",\"one\":" + B(std::get<1>(i.AsV1())) + ",\"al\":" + B(al) + ",\"uj\":" + B(uj) +
               ",\"lv\":" + B(lv) + ",\"str\":" + B(st.IsOK() && ChJson(ccs2) == ChJson(ccs));
      });
    }
  }

  // ------------------------------------------------------------------ log
  EntryPtr E(uint64_t i, uint64_t t) {
    auto e = std::make_shared<raftpb::Entry>();
    e->set_index(i);
    e->set_term(t);
    // index and term determine an entry
    uint64_t h = (i * 7919 + t * 104729) ^ salt_;
    h = (h ^ (h >> 7)) * 2654435761u;
    if ((h >> 8) % 5) e->set_data("e" + std::to_string(i) + "." + std::to_string(t) + std::string((h >> 16) % 12, 'z'));
    return e;
  }
  static EntryPtrs Copy(const EntryPtrs& es) {
    EntryPtrs r;
    for (auto& e : es) r.push_back(std::make_shared<raftpb::Entry>(*e));
    return r;
  }
  static std::string StoreJson(MemoryStorage& st) {
    Obs o;
    ObserveStorage(st, &o);
    std::string r = "\"sb\":" + o.f["sb"] + ",\"sbt\":" + o.f["sbt"] + ",\"ss\":" + o.f["ss"] + ",\"hs\":" + o.f["hs"] + ",\"sl\":[";
    for (size_t i = 0; i < o.slog.size(); i++) r += (i ? "," : "") + o.slog[i];
    return r + "]";
  }
  static std::string LogJson(craft::RaftLog& l, MemoryStorage& st) {
    uint64_t base = l.FirstIndex() - 1;
    auto us = l.UnstableSnapshot();
    return "{\"ba\":" + N(base) + ",\"bt\":" + N(std::get<0>(l.Term(base))) + ",\"lg\":" + EntsJson(l.AllEntries()) + ",\"un\":" +
           N(l.UnstableEntries().size()) + ",\"us\":" + SnapJson(us ? *us : raftpb::Snapshot()) + ",\"cm\":" + N(l.Committed()) + ",\"ap\":" +
           N(l.Applied()) + "," + StoreJson(st) + "}";
  }
  raftpb::Snapshot Snap(uint64_t i, uint64_t t) {
    raftpb::Snapshot s;
    s.mutable_metadata()->set_index(i);
    s.mutable_metadata()->set_term(t);
    s.mutable_metadata()->mutable_conf_state()->add_voters(ib_ + 1);
    s.set_data("s" + std::to_string(++count_));
    return s;
  }
  uint64_t Limit() { return g_.P(0.4) ? UINT64_MAX : static_cast<uint64_t>(g_.In(0, 60)); }
  static std::string Lim(uint64_t v) { return v == UINT64_MAX ? "1000000000" : N(v); }

  std::vector<std::pair<EntryPtrs, std::string>> held_;
  void Hold(const EntryPtrs& es) {
    if (es.empty() || es.size() > 12) return;
    if (held_.size() < 16) held_.emplace_back(es, EntsJson(es));
    else if (g_.P(0.3)) held_[g_.Below(held_.size())] = {es, EntsJson(es)};
  }

  std::string Queries(craft::RaftLog& l) {
    std::vector<std::string> q;
    uint64_t base = l.FirstIndex() - 1, last = l.LastIndex();
    q.push_back("{\"k\":\"idx\",\"f\":" + N(l.FirstIndex()) + ",\"l\":" + N(last) + ",\"lt\":" + N(l.LastTerm()) + "}");
    for (uint64_t i = base > 1 ? base - 2 : 0; i <= last + 2; i++) {
      if (!g_.P(0.6)) continue;
      auto [t, s] = l.Term(i);
      q.push_back("{\"k\":\"term\",\"i\":" + N(i) + ",\"r\":" + N(t) + ",\"c\":" + Code(s) + "}");
    }
    for (int k = 0; k < 4; k++) {
      uint64_t lo = g_.In(base > 0 && g_.P(0.1) ? base : base + 1, last + 1), hi = g_.In(lo, last + 1), mx = Limit();
      auto [es, s] = l.Slice(lo, hi, mx);
      Hold(es);
      q.push_back("{\"k\":\"slice\",\"lo\":" + N(lo) + ",\"hi\":" + N(hi) + ",\"mx\":" + Lim(mx) + ",\"r\":" + EntsJson(es) + ",\"c\":" + Code(s) + "}");
      uint64_t i = g_.In(base + 1, last + 2);
      auto [es2, s2] = l.Entries(i, mx);
      q.push_back("{\"k\":\"ents\",\"i\":" + N(i) + ",\"mx\":" + Lim(mx) + ",\"r\":" + EntsJson(es2) + ",\"c\":" + Code(s2) + "}");
      uint64_t mi = g_.In(base > 0 ? base - 1 : 0, last + 1), mt = g_.P(0.7) ? std::get<0>(l.Term(mi)) : Tm(0, 6);
      q.push_back("{\"k\":\"match\",\"i\":" + N(mi) + ",\"t\":" + N(mt) + ",\"r\":" + B(l.MatchTerm(mi, mt)) + "}");
      uint64_t ui = g_.In(last > 1 ? last - 2 : 0, last + 2), ut = g_.P(0.5) ? l.LastTerm() : Tm(0, 6);
      q.push_back("{\"k\":\"utd\",\"i\":" + N(ui) + ",\"t\":" + N(ut) + ",\"r\":" + B(l.IsUpToData(ui, ut)) + "}");
      uint64_t ci = g_.In(base, last + 1), ct = Tm(0, 6);
      q.push_back("{\"k\":\"fct\",\"i\":" + N(ci) + ",\"t\":" + N(ct) + ",\"r\":" + N(l.FindConflictByTerm(ci, ct)) + "}");
    }
    {
      auto es = Candidate(l, g_.In(base, last));
      q.push_back("{\"k\":\"fc\",\"en\":" + EntsJson(es) + ",\"r\":" + N(l.FindConflict(es)) + "}");
    }
    q.push_back("{\"k\":\"next\",\"r\":" + EntsJson(l.NextEnts()) + ",\"h\":" + B(l.HasNextEnts()) + "}");
    Hold(l.NextEnts());
    Hold(l.UnstableEntries());
    q.push_back("{\"k\":\"unst\",\"r\":" + EntsJson(l.UnstableEntries()) + "}");
    // what earlier calls handed out stays what it was
    for (int k = 0; k < 2 && !held_.empty(); k++) {
      auto& h = held_[g_.Below(held_.size())];
      q.push_back("{\"k\":\"held\",\"r\":" + EntsJson(h.first) + ",\"w\":" + h.second + "}");
    }
    auto [sn, ss] = l.Snapshot();
    q.push_back("{\"k\":\"snap\",\"r\":" + SnapJson(sn ? *sn : raftpb::Snapshot()) + ",\"h\":" + B(l.HasPendingSnapshot()) + "}");
    std::string r = "[";
    for (size_t i = 0; i < q.size(); i++) r += (i ? "," : "") + q[i];
    return r + "]";
  }
  // entries after prev that partly agree with the log
  EntryPtrs Candidate(craft::RaftLog& l, uint64_t prev) {
    EntryPtrs es;
    uint64_t last = l.LastIndex(), t = std::max<uint64_t>(tb_ + 1, std::get<0>(l.Term(prev)));
    bool same = prev < l.Committed() ? g_.P(0.995) : g_.P(0.7);    // what is committed is agreed upon
    int n = g_.In(0, 4);
    for (int i = 1; i <= n; i++) {
      uint64_t x = prev + i;
      if (same && x <= last && (x <= l.Committed() || g_.P(0.7))) {
        t = std::get<0>(l.Term(x));
        es.push_back(std::make_shared<raftpb::Entry>(*std::get<0>(l.Slice(x, x + 1, UINT64_MAX))[0]));
      } else {
        same = false;
        if (g_.P(0.4)) t++;
        if (x <= last && std::get<0>(l.Term(x)) == t) t++;
        es.push_back(E(x, t));
      }
    }
    return es;
  }
  void Log(int steps) {
    held_.clear();
    auto st = std::make_shared<MemoryStorage>(lg_);
    if (xb_ || g_.P(0.7)) {
      uint64_t b = xb_ + g_.In(xb_ ? 4 : 1, 6), t = Tm(1, 2);
      st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(Snap(b, t)));
      EntryPtrs es;
      int n = g_.In(0, bulk_ ? 40 : 5);
      for (int i = 1; i <= n; i++) {
        if (g_.P(0.3)) t++;
        es.push_back(E(b + i, t));
      }
      st->Append(es);
    }
    uint64_t mx = Limit();
    std::unique_ptr<craft::RaftLog> l;
    if (!Line(Op("log.new") + ",\"mx\":" + Lim(mx) + ",\"s\":{" + StoreJson(*st) + "}", [&] {
          l = craft::RaftLog::NewWithSize(lg_, st, mx);
          return "\"o\":" + LogJson(*l, *st) + ",\"q\":" + Queries(*l);
        })) return;
    for (int k = 0; k < steps; k++) {
      std::string s = ",\"mx\":" + Lim(mx) + ",\"s\":" + LogJson(*l, *st);
      auto after = [&] { return "\"o\":" + LogJson(*l, *st) + ",\"q\":" + Queries(*l); };
      uint64_t base = l->FirstIndex() - 1, last = l->LastIndex(), cm = l->Committed(), ap = l->Applied();
      bool ok = true;
      switch (g_.Below(12)) {
        case 0:
        case 1: {
          uint64_t from = g_.P(0.6) ? last : g_.In(cm, last);
          uint64_t t = std::max<uint64_t>(tb_ + 1, std::get<0>(l->Term(from)));
          if (from < last) t = std::get<0>(l->Term(from + 1)) + 1;    // only what conflicts is replaced
          EntryPtrs es;
          int n = g_.In(0, bulk_ && last - base < 120 ? 40 : 3);
          for (int i = 1; i <= n; i++) {
            if (g_.P(0.3)) t++;
            es.push_back(E(from + i, t));
          }
          ok = Line(Op("log.append") + s + ",\"en\":" + EntsJson(es), [&] {
            auto r = l->Append(es);
            return "\"r\":" + N(r) + "," + after();
          });
          break;
        }
        case 2:
        case 3:
        case 4: {
          uint64_t prev = g_.P(0.1) ? g_.In(last + 1, last + 2) : g_.In(std::max(base, cm > 1 ? cm - 1 : 0), last);
          uint64_t pt = g_.P(0.85) ? std::get<0>(l->Term(prev)) : Tm(1, 5);
          auto es = prev <= last ? Candidate(*l, prev) : EntryPtrs();
          // never conflicts with what is committed
          uint64_t c = Ix(0, prev + es.size() + 1);
          ok = Line(Op("log.mappend") + s + ",\"ix\":" + N(prev) + ",\"lt\":" + N(pt) + ",\"cm\":" + N(c) + ",\"en\":" + EntsJson(es), [&] {
            auto [r, yes] = l->MaybeAppend(prev, pt, c, es);
            return "\"r\":" + N(r) + ",\"yes\":" + B(yes) + "," + after();
          });
          break;
        }
        case 5: {
          uint64_t i = g_.P(0.01) ? last + 1 : g_.In(cm > 1 ? cm - 1 : 0, last);
          ok = Line(Op("log.committo") + s + ",\"i\":" + N(i), [&] { l->CommitTo(i); return after(); });
          break;
        }
        case 6: {
          uint64_t i = g_.In(base, last), t = g_.P(0.7) ? std::get<0>(l->Term(i)) : Tm(1, 5);
          if (t == 0 || i == 0) break;
          ok = Line(Op("log.maybecommit") + s + ",\"i\":" + N(i) + ",\"t\":" + N(t), [&] {
            bool r = l->MaybeCommit(i, t);
            return "\"yes\":" + B(r) + "," + after();
          });
          break;
        }
        case 7: {
          uint64_t i = g_.P(0.02) ? cm + 1 : g_.P(0.1) ? 0 : g_.In(ap, cm);
          ok = Line(Op("log.appliedto") + s + ",\"i\":" + N(i), [&] { l->AppliedTo(i); return after(); });
          break;
        }
        case 8: {
          // what Ready/Advance does: persist, then report it, perhaps after the log moved on
          auto us = l->UnstableSnapshot();
          EntryPtrs un = Copy(l->UnstableEntries());
          ok = Line(Op("log.persist") + s, [&] {
            if (us) st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*us));
            st->Append(un);
            return after();
          });
          break;
        }
        case 9: {
          // only entries that are in storage may be reported as stable
          uint64_t sl = std::get<0>(st->LastIndex());
          uint64_t i = g_.In(base, last), t = g_.P(0.7) ? std::get<0>(l->Term(i)) : Tm(1, 5);
          bool snap = l->UnstableSnapshot() != nullptr;
          bool stored = i <= sl && sl <= last && i >= std::get<0>(st->FirstIndex()) - 1;
          for (uint64_t x = std::get<0>(st->FirstIndex()) - 1; stored && x <= sl; x++)
            stored = x < base || std::get<0>(st->Term(x)) == std::get<0>(l->Term(x));
          if (!snap && !stored && t == std::get<0>(l->Term(i))) break;
          if (snap && std::get<0>(st->SnapShot())->metadata().index() != l->UnstableSnapshot()->metadata().index()) break;
          if (snap && !stored) break;
          if (snap) {     // reported together, as Advance does
            uint64_t si = l->UnstableSnapshot()->metadata().index();
            ok = Line(Op("log.advance") + s + ",\"i\":" + N(i) + ",\"t\":" + N(t) + ",\"si\":" + N(si), [&] {
              l->StableTo(i, t);
              l->StableSnapTo(si);
              return after();
            });
            break;
          }
          ok = Line(Op("log.stableto") + s + ",\"i\":" + N(i) + ",\"t\":" + N(t), [&] { l->StableTo(i, t); return after(); });
          break;
        }
        case 10: {
          auto us = l->UnstableSnapshot();
          if (us && std::get<0>(st->SnapShot())->metadata().index() != us->metadata().index()) break;
          uint64_t i = us && g_.P(0.8) ? us->metadata().index() : us ? us->metadata().index() + 1 : last;
          ok = Line(Op("log.stablesnapto") + s + ",\"i\":" + N(i), [&] { l->StableSnapTo(i); return after(); });
          break;
        }
        case 11: {
          if (g_.P(0.5)) {
            auto sn = Snap(g_.In(cm + 1, last + 3), g_.In(std::max<uint64_t>(tb_ + 1, std::get<0>(l->Term(cm))), tb_ + 6));
            ok = Line(Op("log.restore") + s + ",\"sn\":" + SnapJson(sn), [&] {
              l->Restore(std::make_shared<raftpb::Snapshot>(sn));
              return after();
            });
          } else {
            uint64_t sb = std::get<0>(st->FirstIndex()) - 1, lim = std::min(ap, std::get<0>(st->LastIndex()));
            if (l->UnstableSnapshot() || lim <= sb || l->UnstableEntries().size() > last - lim) break;
            uint64_t kk = g_.In(sb + 1, lim);
            if (std::get<0>(st->Term(kk)) != std::get<0>(l->Term(kk))) break;
            ok = Line(Op("log.compact") + s + ",\"i\":" + N(kk), [&] { st->Compact(kk); return after(); });
          }
          break;
        }
      }
      if (!ok) return;
    }
  }

#include "more.h"

  // -------------------------------------------------------------- storage
  void StoreOps(int steps) {
    auto st = std::make_shared<MemoryStorage>(lg_);
    SnapshotPtr held;
    std::string heldj;
    EntryPtrs hes;
    std::string hesj;
    uint64_t t = tb_ + 1;
    if (xb_) st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(Snap(xb_ + g_.In(4, 6), t)));
    for (int k = 0; k < steps; k++) {
      std::string s = ",\"s\":{" + StoreJson(*st) + "}";
      uint64_t sb = std::get<0>(st->FirstIndex()) - 1, last = std::get<0>(st->LastIndex());
      uint64_t si = std::get<0>(st->SnapShot())->metadata().index();
      auto after = [&] {
        std::string r = "\"o\":{" + StoreJson(*st) + "},\"q\":[";
        r += "{\"k\":\"idx\",\"f\":" + N(std::get<0>(st->FirstIndex())) + ",\"l\":" + N(std::get<0>(st->LastIndex())) + "}";
        uint64_t b = std::get<0>(st->FirstIndex()) - 1, la = std::get<0>(st->LastIndex());
        for (uint64_t i = b > 0 ? b - 1 : 0; i <= la + 1; i++) {
          auto [tt, c] = st->Term(i);
          r += ",{\"k\":\"term\",\"i\":" + N(i) + ",\"r\":" + N(tt) + ",\"c\":" + Code(c) + "}";
        }
        for (int j = 0; j < 3; j++) {
          uint64_t lo = g_.P(0.15) ? b : g_.In(b + 1, la + 1), hi = g_.In(std::max(lo, b + 1), la + 1), mx = Limit();
          if (lo == hi) continue;
          auto [es, c] = st->Entries(lo, hi, mx);
          r += ",{\"k\":\"ents\",\"lo\":" + N(lo) + ",\"hi\":" + N(hi) + ",\"mx\":" + Lim(mx) + ",\"r\":" + EntsJson(es) + ",\"c\":" + Code(c) + "}";
          if (c.IsOK() && g_.P(0.3)) {
            hes = es;
            hesj = EntsJson(hes);
          }
        }
        auto [hs, cs, c2] = st->InitialState();
        auto [sn, c3] = st->SnapShot();
        r += ",{\"k\":\"init\",\"hs\":" + HSJson(hs) + ",\"cs\":" + CSJson(cs) + ",\"c\":" + Code(c2) + "}";
        r += ",{\"k\":\"snap\",\"r\":" + SnapJson(*sn) + ",\"c\":" + Code(c3) + "}]";
        // what was handed out before must not have changed under the caller's feet
        bool im = (!held || SnapJson(*held) == heldj) && EntsJson(hes) == hesj;
        if (hes.empty()) im = !held || SnapJson(*held) == heldj;
        r += ",\"im\":" + B(im);
        held = sn;
        heldj = SnapJson(*sn);
        return r;
      };
      bool ok = true;
      switch (g_.Below(7)) {
        case 0:
        case 1:
        case 2: {
          uint64_t from = g_.P(0.01) ? last + 2 : g_.P(0.6) ? last + 1 : g_.In(sb > 2 ? sb - 2 : 1, last + 1);
          int n = g_.In(0, bulk_ && last < sb + 120 ? 50 : 4);
          EntryPtrs es;
          if (from <= last) t++;
          for (int i = 0; i < n; i++) {
            if (g_.P(0.2)) t++;
            es.push_back(E(from + i, t));
          }
          ok = Line(Op("store.append") + s + ",\"en\":" + EntsJson(es), [&] {
            auto c = st->Append(Copy(es));
            return "\"rc\":" + Code(c) + "," + after();
          });
          break;
        }
        case 3: {
          uint64_t i = g_.P(0.3) ? Ix(0, si) : g_.P(0.5) ? g_.In(si + 1, std::max(si + 1, last)) : last + g_.In(1, 3);
          auto sn = Snap(i, t);
          if (g_.P(0.5)) sn.mutable_metadata()->mutable_conf_state()->add_learners(ib_ + 7);
          ok = Line(Op("store.applysnap") + s + ",\"sn\":" + SnapJson(sn), [&] {
            auto c = st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(sn));
            return "\"rc\":" + Code(c) + "," + after();
          });
          break;
        }
        case 4: {
          if (std::max(si + 1, sb) > last) break;
          uint64_t i = g_.P(0.01) ? last + 1 : g_.P(0.2) ? Ix(0, si) : g_.In(std::max(si + 1, sb), last);
          if (i > si && i < sb) break;
          bool null = g_.P(0.3);
          raftpb::ConfState cs;
          for (uint64_t v = ib_ + 1; v <= ib_ + 5; v++) {
            if (g_.P(0.4)) cs.add_voters(v);
            else if (g_.P(0.3)) cs.add_learners(v);
            else if (g_.P(0.3)) cs.add_voters_outgoing(v);
            else if (g_.P(0.2)) cs.add_learners_next(v);
          }
          cs.set_auto_leave(g_.P(0.3));
          std::string d = "d" + std::to_string(++count_);
          ok = Line(Op("store.createsnap") + s + ",\"i\":" + N(i) + ",\"nc\":" + B(null) + ",\"cs\":" + CSJson(cs) + ",\"d\":" + Q(d), [&] {
            auto [sn, c] = st->CreateSnapshot(i, null ? nullptr : &cs, d);
            return "\"rc\":" + Code(c) + ",\"r\":" + SnapJson(sn ? *sn : raftpb::Snapshot()) + "," + after();
          });
          break;
        }
        case 5: {
          uint64_t i = g_.P(0.02) ? last + 1 : g_.P(0.3) ? Ix(0, sb) : g_.In(sb, last);
          ok = Line(Op("store.compact") + s + ",\"i\":" + N(i), [&] {
            auto c = st->Compact(i);
            return "\"rc\":" + Code(c) + "," + after();
          });
          break;
        }
        case 6: {
          raftpb::HardState hs;
          hs.set_term(Tm(0, 9));
          hs.set_vote(g_.P(0.2) ? 0 : ib_ + g_.In(1, 5));
          hs.set_commit(Ix(0, last));
          ok = Line(Op("store.seths") + s + ",\"hs\":" + HSJson(hs), [&] {
            auto c = st->SetHardState(hs);
            return "\"rc\":" + Code(c) + "," + after();
          });
          break;
        }
      }
      if (!ok) return;
    }
  }

  // ------------------------------------------------------------- progress
  void ProgressOps(int steps) {
    int64_t sz = g_.In(1, 4);
    uint64_t m = xb_ + g_.In(xb_ ? 3 : 0, 5);
    auto p = std::make_shared<Progress>(lg_, m + g_.In(1, 3), m, sz, g_.P(0.2), g_.P(0.5));
    for (int k = 0; k < steps; k++) {
      std::string s = ",\"sz\":" + NI(sz) + ",\"s\":" + ProgressJson(1, *p);
      auto after = [&](bool r) {
        auto c = p->Clone();
        std::string pj = ProgressJson(1, *p);
        bool own = ProgressJson(1, *c) == pj;
        if (c->GetInflights()->Count() > 0) c->GetInflights()->FreeFirstOne();
        c->SetNext(c->Next() + 9);
        if (!c->GetInflights()->Full()) c->GetInflights()->Add(99999);
        own = own && ProgressJson(1, *p) == pj;
        std::string str = p->String();
        return "\"o\":" + pj + ",\"yes\":" + B(r) + ",\"pa\":" + B(p->IsPaused()) + ",\"own\":" + B(own && !str.empty());
      };
      uint64_t mt = p->Match(), nx = p->Next();
      switch (g_.Below(11)) {
        case 0: Line(Op("progress.probe") + s, [&] { p->BecomeProbe(); return after(true); }); break;
        case 1: Line(Op("progress.replicate") + s, [&] { p->BecomeReplicate(); return after(true); }); break;
        case 2: {
          uint64_t i = g_.In(mt, nx + 4);
          if (g_.P(0.5)) break;
          Line(Op("progress.snapshot") + s + ",\"i\":" + N(i), [&] { p->BecomeSnapshot(i); return after(true); });
          break;
        }
        case 3:
        case 4: {
          uint64_t i = g_.In(mt > 2 ? mt - 2 : 0, nx + 2);
          Line(Op("progress.update") + s + ",\"i\":" + N(i), [&] { bool r = p->MaybeUpdate(i); return after(r); });
          break;
        }
        case 5: {
          uint64_t i = g_.In(nx, nx + 3);
          Line(Op("progress.optimistic") + s + ",\"i\":" + N(i), [&] { p->OptimisticUpdate(i); return after(true); });
          break;
        }
        case 6:
        case 7: {
          uint64_t rj = g_.P(0.6) ? nx - 1 : Ix(0, nx + 1), hint = Ix(0, nx + 2);
          Line(Op("progress.decr") + s + ",\"i\":" + N(rj) + ",\"h\":" + N(hint), [&] { bool r = p->MaybeDecrTo(rj, hint); return after(r); });
          break;
        }
        case 8: {
          if (g_.P(0.5)) Line(Op("progress.acked") + s, [&] { p->ProbeAcked(); return after(true); });
          else Line(Op("progress.sent") + s, [&] { p->SetProbeSent(true); return after(true); });
          break;
        }
        case 9: {
          if (p->State() != StateType::kReplicate || p->GetInflights()->Full()) break;
          if (auto& in = *p->GetInflights(); in.Count() > 0 && in.Buffer()[(in.Start() + in.Count() - 1) % in.Size()] >= nx) break;    // ascending
          Line(Op("progress.add") + s + ",\"i\":" + N(nx), [&] { p->GetInflights()->Add(nx); p->OptimisticUpdate(nx); return after(true); });
          break;
        }
        case 10: {
          uint64_t i = g_.In(mt, nx);
          Line(Op("progress.free") + s + ",\"i\":" + N(i), [&] { p->GetInflights()->FreeLE(i); return after(true); });
          break;
        }
      }
      if (p->Next() > xb_ + 100000) return;
    }
  }
  void InflightsOps(int steps) {
    int64_t sz = g_.P(0.5) ? g_.In(1, 4) : g_.P(0.85) ? g_.In(5, 20) : g_.In(21, 90);
    std::unique_ptr<Inflights> in = std::make_unique<Inflights>(lg_, sz);
    uint64_t next = xb_ + 1;
    auto seq = [&](Inflights& f) {
      std::string r = "[";
      auto& b = f.Buffer();
      for (int64_t i = 0; i < f.Count(); i++) {
        int64_t x = f.Start() + i;
        if (f.Size() > 0) x %= f.Size();
        r += (i ? "," : "") + (x >= 0 && x < static_cast<int64_t>(b.size()) ? N(b[x]) : std::string("999999999"));
      }
      return r + "]";
    };
    double add = g_.Pick(std::vector<double>{0.4, 0.6, 0.8});
    for (int k = 0; k < steps; k++) {
      std::string s = ",\"sz\":" + NI(sz) + ",\"s\":" + seq(*in);
      auto after = [&] {
        return "\"o\":" + seq(*in) + ",\"full\":" + B(in->Full()) + ",\"cnt\":" + NI(in->Count());
      };
      bool ok = true;
      if (g_.P(add)) {
        if (in->Full() && !g_.P(0.01)) continue;
        next += g_.In(1, 3);
        ok = Line(Op("inflights.add") + s + ",\"i\":" + N(next), [&] { in->Add(next); return after(); });
      } else if (g_.P(0.75)) {
        uint64_t i = g_.In(next > xb_ + 9 ? next - 9 : xb_, next + 1);
        ok = Line(Op("inflights.freele") + s + ",\"i\":" + N(i), [&] { in->FreeLE(i); return after(); });
      } else if (g_.P(0.6)) {
        if (in->Count() == 0) continue;    // the caller checks
        ok = Line(Op("inflights.freefirst") + s, [&] { in->FreeFirstOne(); return after(); });
      } else if (g_.P(0.3)) {
        ok = Line(Op("inflights.reset") + s, [&] { in->Reset(); return after(); });
      } else {
        ok = Line(Op("inflights.clone") + s, [&] {
          auto c = in->Clone();
          std::string b = seq(*in);
          if (c->Count() > 0) c->FreeFirstOne();
          if (!c->Full()) c->Add(99999);
          std::string r = "\"own\":" + B(seq(*in) == b);
          in = in->Clone();
          return r + "," + after();
        });
      }
      if (!ok) return;
    }
  }

  // ---------------------------------------------------------------- reads
  void Reads(int steps) {
    ReadOnly ro(lg_, ReadOnly::kSafe);
    uint64_t idx = xb_ + 1;
    int n = 0;
    auto state = [&] {
      auto& pend = ro.GetPendingReadIndex();
      return "{\"pn\":" + N(pend.size()) + ",\"q\":" + Arr(ro.GetReadIndexQueue(), [&](const std::string& c) {
        auto it = pend.find(c);
        if (it == pend.end()) return "{\"c\":" + Q(c) + ",\"f\":0,\"i\":0,\"a\":[]}";
        std::vector<uint64_t> acks;
        for (auto& a : it->second->acks) if (a.second) acks.push_back(a.first);
        return "{\"c\":" + Q(c) + ",\"f\":" + N(it->second->req->from()) + ",\"i\":" + N(it->second->index) + ",\"a\":" + Ids(acks) + "}";
      }) + "}";
    };
    for (int k = 0; k < steps; k++) {
      std::string s = ",\"s\":" + state();
      auto ctx = [&] { return "c" + std::to_string(n > 5 ? g_.In(n - 5, n + 1) : g_.In(0, n + 1)); };
      int w = bulk_ && k < 40 ? g_.Below(5) : g_.Below(10);
      bool ok = true;
      if (w < 4) {
        std::string c = g_.P(0.85) ? "c" + std::to_string(++n) : ctx();
        idx += g_.Below(3);
        uint64_t f = g_.Below(4);
        if (f > 0) f += ib_;
        ok = Line(Op("reads.add") + s + ",\"c\":" + Q(c) + ",\"i\":" + N(idx) + ",\"f\":" + N(f), [&] {
          auto m = std::make_shared<raftpb::Message>();
          m->set_type(raftpb::MsgReadIndex);
          m->set_from(f);
          m->add_entries()->set_data(c);
          ro.AddRequest(idx, m);
          return "\"o\":" + state() + ",\"lc\":" + Q(ro.LastPendingRequestCtx());
        });
      } else if (w < 8) {
        std::string c = ctx();
        uint64_t id = ib_ + g_.In(1, 5);
        ok = Line(Op("reads.ack") + s + ",\"c\":" + Q(c) + ",\"id\":" + N(id), [&] {
          auto& a = ro.RecvAck(id, c);
          std::vector<uint64_t> acks;
          for (auto& x : a) if (x.second) acks.push_back(x.first);
          return "\"r\":" + Ids(acks) + ",\"o\":" + state() + ",\"lc\":" + Q(ro.LastPendingRequestCtx());
        });
      } else {
        std::string c = ctx();
        ok = Line(Op("reads.advance") + s + ",\"c\":" + Q(c), [&] {
          auto m = std::make_shared<raftpb::Message>();
          m->set_context(c);
          auto r = ro.Advance(m);
          return "\"r\":" + Arr(r, [](const std::shared_ptr<ReadIndexStatus>& x) {
            return "{\"c\":" + Q(x->req->entries(0).data()) + ",\"i\":" + N(x->index) + "}";
          }) + ",\"o\":" + state() + ",\"lc\":" + Q(ro.LastPendingRequestCtx());
        });
      }
      if (!ok) return;
    }
  }

  // -------------------------------------------------------------- settings
  void ConfigOps(int steps) {
    for (int k = 0; k < steps; k++) {
      Raft::Config c;
      int bad = g_.Below(9);
      c.id = bad == 0 ? 0 : g_.In(1, 5);
      c.heartbeat_tick = bad == 1 ? g_.In(-2, 0) : g_.In(1, 4);
      c.election_tick = bad == 2 ? g_.In(-1, c.heartbeat_tick) : c.heartbeat_tick + g_.In(1, 9);
      auto st = std::make_shared<MemoryStorage>(lg_);
      if (bad != 3) c.storage = st;
      c.max_inflight_msgs = bad == 4 ? g_.In(-1, 0) : g_.In(1, 300);
      c.max_size_per_msg = g_.Pick(std::vector<uint64_t>{0, 1, 100, UINT64_MAX});
      c.max_committed_size_per_ready = g_.Pick(std::vector<uint64_t>{0, 0, 7, 200, UINT64_MAX});
      c.max_uncommitted_entries_size = g_.Pick(std::vector<uint64_t>{0, 0, 5, 100, UINT64_MAX});
      c.check_quorum = g_.P(0.5);
      c.read_only_option = g_.P(0.4) ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
      c.pre_vote = g_.P(0.5);
      c.logger = lg_;
      std::string in = ",\"id\":" + N(c.id) + ",\"ht\":" + NI(c.heartbeat_tick) + ",\"et\":" + NI(c.election_tick) + ",\"st\":" + B(c.storage != nullptr) +
                       ",\"infl\":" + NI(c.max_inflight_msgs) + ",\"maxmsg\":" + Conf::Lim(c.max_size_per_msg) + ",\"maxcomm\":" +
                       Conf::Lim(c.max_committed_size_per_ready) + ",\"maxunc\":" + Conf::Lim(c.max_uncommitted_entries_size) + ",\"cq\":" + B(c.check_quorum) +
                       ",\"lease\":" + B(c.read_only_option == ReadOnly::kLeaseBased);
      Raft::Config c2 = c;
      Line(Op("config.validate") + in, [&] {
        auto s = c2.Validate();
        return "\"rc\":" + Code(s) + ",\"emsg\":" + Conf::Lim(c2.max_size_per_msg) + ",\"ecomm\":" + Conf::Lim(c2.max_committed_size_per_ready) +
               ",\"eunc\":" + Conf::Lim(c2.max_uncommitted_entries_size);
      });
      Line(Op("config.new") + in, [&] {
        auto rn = RawNode::New(c);
        return "\"made\":" + B(rn != nullptr) + ",\"tm\":" + N(rn->GetRaft()->Term()) + ",\"rt\":" + NI(rn->GetRaft()->RandomizedElectionTimeout());
      });
    }
  }

  void UtilOps() {
    for (int t = 0; t <= 18; t++) {
      if (!raftpb::MessageType_IsValid(t)) continue;
      auto mt = static_cast<raftpb::MessageType>(t);
      Line(Op("util.type") + ",\"y\":\"" + raftpb::MessageType_Name(mt) + "\"", [&] {
        return "\"loc\":" + B(Util::IsLocalMsg(mt)) + ",\"rsp\":" + B(Util::IsResponseMsg(mt));
      });
    }
    for (int k = 0; k < 200; k++) {
      EntryPtrs es;
      int n = g_.In(0, 6);
      for (int i = 0; i < n; i++) es.push_back(E(i + 1, 1));
      uint64_t mx = Limit();
      Line(Op("util.limit") + ",\"en\":" + EntsJson(es) + ",\"mx\":" + Lim(mx), [&] {
        EntryPtrs c = es;
        auto r = Util::LimitSize(std::move(c), mx);
        return "\"r\":" + EntsJson(r);
      });
    }
    StatusOps();
    std::set<int> seen;
    bool in = true;
    for (int k = 0; k < 400; k++) {
      int r = Util::Random(3, 8);
      in = in && r >= 3 && r <= 8;
      seen.insert(r);
    }
    Line(Op("util.random"), [&] { return "\"in\":" + B(in) + ",\"kinds\":" + N(seen.size()); });
  }

  // Values of type Status: what an error says survives every copy, assignment and move.
  void StatusOps() {
    const int n = 4;
    std::vector<Status> v(n);
    auto val = [&](const Status& s) { return s.IsOK() ? std::string("OK") : std::string(s.Str()); };
    auto all = [&] { return Arr(v, [&](const Status& s) { return "{\"ok\":" + B(s.IsOK()) + ",\"s\":" + Q(val(s)) + "}"; }); };
    for (int k = 0; k < 60; k++) {
      int a = g_.In(0, n - 1), b = g_.In(0, n - 1), how = g_.In(0, 6), num = g_.In(0, 900000000);
      std::string text(g_.P(0.1) ? 1300 : g_.In(0, 40), static_cast<char>('a' + k % 26));
      std::string before = all();
      static const char* names[] = {"ok", "error", "copy", "assign", "move", "passon", "number"};
      Line(Op("util.status") + ",\"how\":\"" + names[how] + "\",\"a\":" + N(a + 1) + ",\"b\":" + N(b + 1) + ",\"tx\":" + Q(text.substr(0, 1023)) +
               ",\"nm\":" + NI(num) + ",\"was\":" + before, [&] {
        switch (how) {
          case 0: v[a] = Status::OK(); break;
          case 1: v[a] = Status::Error("%s", text.c_str()); break;
          case 2: { Status t(v[b]); v[a] = t; break; }
          case 3: v[a] = v[b]; break;
          case 4: { Status t(v[b]); v[a] = std::move(t); break; }
          case 5: { auto f = [](const Status& s) { Status r = s; return r; }; auto [x, y] = std::make_tuple(f(v[b]), 1); (void)y; v[a] = x; break; }
          case 6: v[a] = Status::Error("n %d", num); break;
        }
        return "\"now\":" + all();
      });
    }
  }

  Out* out_;
  Rng& g_;
  std::shared_ptr<Logger> lg_;
  long count_ = 0;
  uint64_t salt_ = 0;
  bool bulk_ = false;                // long logs and queues
  uint64_t ib_ = 0, xb_ = 0, tb_ = 0;     // what ids, indexes and terms start from
};
}  // namespace h
