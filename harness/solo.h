// One real node against an imagined rest of the cluster: arbitrary initial storage and
// configuration, and messages of every kind that are plausible in its current state.
#pragma once
#include "cluster.h"

namespace h {

class Solo : public Base {
 public:
  Solo(Recorder* rec, Rng* rng, const Profile& pf) : Base(rec, rng), pf_(pf) {}

  void Run() {
    rec_->veto = [this](Node& nd, const raftpb::ConfChangeV2& cc) { return !Legal(View(nd), cc) && !g_.P(0.02); };
    Setup();
    int steps = g_.In(pf_.steps / 4, pf_.steps);
    // each run has its own mix
    for (auto& kv : pf_.sw) {
      auto& m = kv.first[0] == 's' ? w_ : mw_;
      if (!m.count(kv.first.substr(2))) abort();
      m[kv.first.substr(2)] *= kv.second;
    }
    for (auto& kv : w_) kv.second *= g_.Pick(std::vector<double>{0.2, 1, 1, 1, 3});
    for (auto& kv : mw_) kv.second *= g_.Pick(std::vector<double>{0.2, 1, 1, 1, 4});
    double lead = g_.P(0.6) ? 0.06 : 0.01;
    for (int i = 0; i < steps; i++) {
      if (nd_.up && nd_.rn->GetRaft()->State() != kLeader && g_.P(lead)) Elect();
      Act();
    }
  }

 protected:
  void SendAll(Node& nd) override {
    for (auto& m : rec_->SendOut(nd)) {
      sent_.push_back(m);
      if (sent_.size() > 14) sent_.erase(sent_.begin() + g_.Below(4));
    }
  }

 private:
  static constexpr int kIds = 5;
  uint64_t changed_ = 0;             // the member the latest change is about
  uint64_t AnyId() { return ib_ + g_.In(1, kIds); }
  uint64_t Me() const { return ib_ + 1; }
  // an index: nothing (0) or one above the base
  uint64_t Ix(uint64_t lo, uint64_t hi) {
    if (xb_ && lo < xb_ && hi > xb_) return lo == 0 && g_.P(0.12) ? 0 : xb_ + g_.In(1, hi - xb_);
    return g_.In(lo, hi);
  }
  uint64_t Tm(uint64_t lo, uint64_t hi) {
    if (tb_ && lo < tb_ && hi > tb_) return lo == 0 && g_.P(0.12) ? 0 : tb_ + g_.In(1, hi - tb_);
    return g_.In(lo, hi);
  }
  static raftpb::ConfState View(Node& nd) { return nd.rn->GetRaft()->GetTracker().ConfState(); }
  Raft* R() { return nd_.rn->GetRaft(); }
  uint64_t Other() { return ib_ + (g_.P(0.04) ? 6 : g_.In(2, kIds)); }
  std::string Data() {
    if (g_.P(0.1)) return "";
    std::string d = "q" + std::to_string(++count_);
    if (g_.P(0.3)) d += std::string(g_.Below(24), 'y');
    if (bulk_ && g_.P(0.02)) d += std::string(g_.In(5000, 70000), 'z');
    return d;
  }

  // Would the change be accepted in this configuration?  (Decided on the ConfState alone.)
  static bool Legal(const raftpb::ConfState& cs, const raftpb::ConfChangeV2& cc) {
    std::set<uint64_t> v(cs.voters().begin(), cs.voters().end());
    bool joint = cs.voters_outgoing_size() > 0;
    bool leave = cc.changes_size() == 0 && cc.transition() == raftpb::ConfChangeTransitionAuto;
    if (joint || leave) return joint && leave;
    if (v.empty() && (cc.changes_size() > 1 || cc.transition() != raftpb::ConfChangeTransitionAuto)) return false;
    std::set<uint64_t> w = v;
    for (auto& c : cc.changes()) {
      if (c.node_id() == 0) continue;
      if (c.type() == raftpb::ConfChangeAddNode) w.insert(c.node_id());
      else if (c.type() != raftpb::ConfChangeUpdateNode) w.erase(c.node_id());
    }
    return !w.empty();
  }

  void SomeChange(raftpb::Entry* e) {
    int k = g_.Below(10);
    auto type = [&] {
      double r = g_.Below(100);
      return r < 38 ? raftpb::ConfChangeAddNode : r < 66 ? raftpb::ConfChangeRemoveNode
             : r < 92 ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeUpdateNode;
    };
    if (k < 4) {
      raftpb::ConfChange c;
      c.set_type(type());
      c.set_node_id(g_.P(0.03) ? 0 : AnyId());
      if (c.node_id() != 0) changed_ = c.node_id();
      e->set_type(raftpb::EntryConfChange);
      e->set_data(c.SerializeAsString());
      return;
    }
    raftpb::ConfChangeV2 c;
    bool joint = nd_.up && View(nd_).voters_outgoing_size() > 0;
    if (!(joint ? k < 9 : k < 5)) {
      int n = g_.In(1, 3);
      std::set<uint64_t> used;
      for (int i = 0; i < n; i++) {
        uint64_t id = AnyId();
        if (!used.insert(id).second) continue;
        auto* ch = c.add_changes();
        ch->set_type(type());
        ch->set_node_id(id);
        changed_ = id;
      }
      int t = g_.Below(4);
      if (t == 1) c.set_transition(raftpb::ConfChangeTransitionJointImplicit);
      if (t == 2) c.set_transition(raftpb::ConfChangeTransitionJointExplicit);
    }
    e->set_type(raftpb::EntryConfChangeV2);
    e->set_data(c.SerializeAsString());
  }
  raftpb::Entry SomeEntry(uint64_t i, uint64_t t, double conf) {
    raftpb::Entry e;
    e.set_index(i);
    e.set_term(t);
    if (g_.P(conf)) SomeChange(&e);
    else if (auto d = Data(); !d.empty()) e.set_data(d);
    return e;
  }
  raftpb::ConfState SomeConf(bool with_me) {
    raftpb::ConfState cs;
    std::vector<uint64_t> ids;
    for (uint64_t i = 2; i <= kIds; i++) ids.push_back(ib_ + i);
    std::map<uint64_t, int> role;       // 0 none, 1 voter, 2 learner, 3 outgoing only, 4 both, 5 outgoing, learner next
    bool joint = g_.P(0.3);
    auto pick = [&] { return joint ? g_.Pick(std::vector<int>{0, 1, 1, 2, 3, 4, 4, 5}) : g_.Pick(std::vector<int>{0, 1, 1, 1, 1, 2}); };
    for (auto id : ids) role[id] = pick();
    role[Me()] = with_me ? (g_.P(0.85) ? (joint ? 4 : 1) : g_.P(0.6) ? 2 : joint ? g_.Pick(std::vector<int>{1, 3, 5}) : 2) : 0;
    bool in = false, out = false;
    for (auto& kv : role) {
      in = in || kv.second == 1 || kv.second == 4;
      out = out || kv.second >= 3;
    }
    if (!in) role[ib_ + 2] = 4, in = out = true;
    for (auto& kv : role) {
      if (kv.second == 1 || kv.second == 4) cs.add_voters(kv.first);
      if (kv.second == 2) cs.add_learners(kv.first);
      if (joint && kv.second >= 3) cs.add_voters_outgoing(kv.first);
      if (joint && kv.second == 5) cs.add_learners_next(kv.first);
    }
    if (joint && cs.voters_outgoing_size() > 0) cs.set_auto_leave(g_.P(0.4));
    return cs;
  }

  void Setup() {
    Conf cf;
    cf.pv = g_.P(pf_.pv);
    cf.cq = g_.P(pf_.cq);
    cf.lease = cf.cq && g_.P(pf_.lease * 2);
    cf.dpf = g_.P(pf_.dpf);
    cf.et = g_.In(2, 5);
    cf.ht = g_.P(0.75) ? 1 : g_.In(1, cf.et - 1);
    const std::vector<uint64_t> lim = {0, 10, 20, 40, 80};
    if (g_.P(pf_.small)) cf.maxmsg = g_.Pick(lim);
    if (g_.P(pf_.small)) cf.maxcomm = g_.Pick(lim);
    cf.maxunc = g_.P(0.35) ? g_.In(1, 40) : 0;
    cf.infl = g_.P(0.7) ? g_.In(1, 3) : 12;
    if (g_.P(pf_.slow)) slow_ = true, cf.et = g_.In(150, 300), cf.ht = g_.In(1, cf.et - 1);
    if (g_.P(pf_.bulk)) bulk_ = true, cf.infl = g_.In(8, 300);
    bool seeded = g_.P(0.88);
    if (g_.P(pf_.big)) ib_ = kBase;
    if (seeded && g_.P(pf_.big)) xb_ = kBase;
    if (seeded && g_.P(pf_.big)) tb_ = kBase;
    nd_.id = Me();
    nd_.cf = cf;
    nd_.st = std::make_shared<Store>(rec_->logger());
    uint64_t applied = 0;
    if (seeded) {
      raftpb::Snapshot s;
      s.mutable_metadata()->set_index(xb_ + g_.In(xb_ ? 4 : 1, xb_ ? 6 : 5));
      s.mutable_metadata()->set_term(tb_ + g_.In(1, 2));
      *s.mutable_metadata()->mutable_conf_state() = SomeConf(g_.P(0.93));
      s.set_data("s" + Hex(7));
      uint64_t b = s.metadata().index(), t = s.metadata().term(), last = b;
      nd_.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(s));
      EntryPtrs es;
      int n = g_.P(0.2) ? 0 : g_.In(1, bulk_ ? 60 : 6);
      for (int i = 0; i < n; i++) {
        if (g_.P(0.3)) t++;
        es.push_back(std::make_shared<raftpb::Entry>(SomeEntry(++last, t, 0.1)));
      }
      nd_.st->Append(es);
      raftpb::HardState hs;
      hs.set_term(t + (g_.P(0.5) ? 0 : g_.In(1, 2)));
      hs.set_commit(g_.P(0.3) ? b : g_.In(b, last));
      if (hs.term() > t && g_.P(0.5)) hs.set_vote(AnyId());
      else if (g_.P(0.4)) hs.set_vote(AnyId());
      if (!tb_ && g_.P(0.05)) hs.Clear();      // a storage that was filled from a snapshot alone
      nd_.st->SetHardState(hs);
      nd_.synced = hs;
      if (g_.P(0.5)) applied = b;
      rec_->Create(nd_, applied);
      rec_->RestoreApp(nd_, s);
      if (g_.P(0.04)) rec_->Boot(nd_, {ib_ + 1, ib_ + 2});
    } else {
      rec_->Create(nd_, 0);
      if (g_.P(0.8)) {
        std::vector<uint64_t> ids;
        if (g_.P(0.8)) ids.push_back(Me());
        for (uint64_t i = 2; i <= kIds; i++) if (g_.P(0.5)) ids.push_back(ib_ + i);
        rec_->Boot(nd_, ids);
      }
    }
  }

  void FullReady() {
    Finish(nd_);
    for (int k = 0; k < 4 && nd_.rn->HasReady(); k++) {
      NextStage(nd_);
      Finish(nd_);
    }
  }

  // Make the node leader, if the configuration allows it.
  void Elect() {
    FullReady();
    if (R()->State() == kLeader) return;
    rec_->Camp(nd_);
    for (int phase = 0; phase < 2; phase++) {
      auto st = R()->State();
      if (st != kCandidate && st != kPreCandidate) break;
      for (uint64_t id = ib_ + 2; id <= ib_ + kIds; id++) {
        if (R()->State() != st) break;
        raftpb::Message m;
        m.set_from(id);
        m.set_to(Me());
        m.set_type(st == kCandidate ? raftpb::MsgVoteResp : raftpb::MsgPreVoteResp);
        m.set_term(st == kCandidate ? R()->Term() : R()->Term() + 1);
        rec_->Step(nd_, m);
      }
    }
    if (g_.P(0.6)) FullReady();
    if (R()->State() == kLeader && g_.P(0.6)) {
      // the others catch up
      for (uint64_t id = ib_ + 2; id <= ib_ + kIds; id++) {
        if (g_.P(0.25)) continue;
        Ack(id, R()->GetRaftLog()->LastIndex());
      }
    }
  }
  void Ack(uint64_t id, uint64_t i) {
    raftpb::Message m;
    m.set_type(raftpb::MsgAppResp);
    m.set_from(id);
    m.set_to(Me());
    m.set_term(R()->Term());
    m.set_index(i);
    rec_->Step(nd_, m);
  }

  uint64_t TermAt(uint64_t i) { return std::get<0>(R()->GetRaftLog()->Term(i)); }

  uint64_t SomeTerm(bool leader_like) {
    uint64_t tm = std::max<uint64_t>(R()->Term(), tb_ + 1);
    int r = g_.Below(100);
    if (leader_like && R()->State() == kLeader) return r < 60 ? tm + g_.In(1, 2) : std::max<int64_t>(tb_ + 1, static_cast<int64_t>(tm) - g_.In(1, 2));
    if (r < 68) return tm;
    if (r < 86) return tm + g_.In(1, 2);
    return std::max<int64_t>(tb_ + 1, static_cast<int64_t>(tm) - g_.In(1, 2));
  }

  // A message of the given kind that could arrive now.
  bool Plausible(const std::string& k, raftpb::Message* m) {
    auto* lg = R()->GetRaftLog();
    uint64_t tm = R()->Term(), last = lg->LastIndex(), cm = lg->Committed();
    m->set_from(g_.P(0.5) && R()->Lead() != Me() && R()->Lead() != 0 && (k == "app" || k == "hb" || k == "snap") ? R()->Lead() : Other());
    m->set_to(Me());
    if (k == "app") {
      m->set_type(raftpb::MsgApp);
      m->set_term(SomeTerm(true));
      uint64_t prev = g_.P(0.6) ? last : g_.P(0.5) ? cm : Ix(cm > 2 ? cm - 2 : 0, last + 2);
      uint64_t pt = prev <= last ? TermAt(prev) : g_.In(std::max<uint64_t>(tb_ + 1, TermAt(last)), m->term());
      if (prev > cm && g_.P(0.2)) pt = g_.In(std::max<uint64_t>(tb_ + 1, TermAt(cm)), m->term());
      // a later leader replaces part of what is not yet stable
      size_t un = lg->UnstableEntries().size();
      bool replace = un >= 2 && last - un + 1 >= cm && g_.P(0.2);
      if (replace) {
        prev = g_.In(std::max(cm, last - un), last - 1);
        pt = TermAt(prev);
        m->set_term(tm + g_.In(R()->State() == kLeader || TermAt(last) == tm ? 1 : 0, 1));
      }
      if (pt > m->term()) m->set_term(pt);
      m->set_index(prev);
      m->set_logterm(pt);
      int n = g_.P(0.2) && !replace ? 0 : g_.In(1, bulk_ ? 80 : 3);
      bool same = g_.P(0.6) && !replace;
      uint64_t t = pt;
      for (uint64_t i = lg->FirstIndex(); i <= last; i++) {
        auto [es, st] = lg->Slice(i, i + 1, UINT64_MAX);
        if (st.IsOK() && !es.empty()) known_[{i, es[0]->term()}] = {TermAt(i - 1), *es[0]};
      }
      bool match = prev <= last && TermAt(prev) == pt;
      for (int i = 1; i <= n; i++) {
        uint64_t x = prev + i;
        bool own = x <= last && TermAt(x) <= m->term() && TermAt(x) >= t && match && x > prev && x >= lg->FirstIndex();
        if (x <= cm && x >= lg->FirstIndex() && match && !own) break;
        uint64_t before = t;
        if (own && (same || x <= cm) && !g_.P(0.01)) {
          t = TermAt(x);
        } else {
          same = false;
          uint64_t hi = m->term(), lo = std::max<uint64_t>(t, tb_ + 1);
          if (lo > hi) break;
          t = g_.P(0.6) ? hi : g_.In(lo, hi);
        }
        // index and term determine the entry and everything before it
        auto [it, fresh] = known_.try_emplace({x, t}, before, raftpb::Entry());
        if (fresh) it->second.second = SomeEntry(x, t, 0.08);
        else if (it->second.first != before) break;
        *m->add_entries() = it->second.second;
      }
      uint64_t lastnew = prev + m->entries_size();
      m->set_commit(g_.P(0.5) ? g_.In(cm > 1 ? cm - 1 : 0, std::max(cm, lastnew)) : lastnew + (g_.P(0.3) ? g_.In(1, 3) : 0));
    } else if (k == "hb") {
      m->set_type(raftpb::MsgHeartbeat);
      m->set_term(SomeTerm(true));
      m->set_commit(g_.In(cm > 1 ? cm - 1 : 0, g_.P(0.01) ? last + 2 : last));
      if (g_.P(0.3)) m->set_context("h" + std::to_string(g_.Below(4)));
    } else if (k == "snap") {
      m->set_type(raftpb::MsgSnap);
      m->set_term(SomeTerm(true));
      auto* s = m->mutable_snapshot();
      auto* md = s->mutable_metadata();
      uint64_t i = g_.P(0.25) ? Ix(1, std::max<uint64_t>(cm, 1)) : g_.P(0.3) ? last : g_.In(cm + 1, last + 4);
      md->set_index(i);
      bool own = i >= 1 && i <= last && TermAt(i) > 0 && TermAt(i) <= m->term() && g_.P(0.6);
      md->set_term(own ? TermAt(i) : Tm(1, m->term()));
      *md->mutable_conf_state() = g_.P(0.5) && View(nd_).voters_size() > 0 ? View(nd_) : SomeConf(g_.P(0.9));
      s->set_data("s" + Hex(g_.Below(1000) + 9));
    } else if (k == "vote" || k == "prevote") {
      m->set_type(k == "vote" ? raftpb::MsgVote : raftpb::MsgPreVote);
      m->set_term(k == "vote" ? SomeTerm(false) : SomeTerm(false) + (g_.P(0.5) ? 1 : 0));
      int64_t d = g_.In(-2, 2);
      m->set_index(g_.P(0.4) ? last : std::max<int64_t>(0, static_cast<int64_t>(last) + d));
      m->set_logterm(g_.P(0.6) ? TermAt(last) : Tm(0, m->term()));
      if (k == "vote" && g_.P(0.2)) m->set_context("CampaignTransfer");
    } else if (k == "voteresp" || k == "prevoteresp") {
      bool pre = k == "prevoteresp";
      m->set_type(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp);
      bool rej = g_.P(0.4);
      m->set_reject(rej);
      m->set_term(g_.P(0.75) ? (pre && !rej ? tm + 1 : tm) : SomeTerm(false));
      if (m->term() == 0) return false;
    } else if (k == "appresp") {
      m->set_type(raftpb::MsgAppResp);
      m->set_term(SomeTerm(false));
      auto pr = R()->GetTracker().GetProgress(m->from());
      uint64_t mt = pr ? pr->Match() : cm, nx = pr ? pr->Next() : last + 1;
      if (g_.P(0.55)) {
        m->set_index(g_.P(0.4) ? last : Ix(mt > 1 ? mt - 1 : 0, last));
      } else {
        m->set_reject(true);
        m->set_index(g_.P(0.6) ? nx - 1 : Ix(0, last + 1));
        m->set_rejecthint(g_.P(0.8) ? Ix(0, m->index()) : Ix(0, last + 2));
        if (m->rejecthint() > 0 && g_.P(0.8)) m->set_logterm(g_.P(0.5) ? TermAt(m->rejecthint()) : Tm(0, m->term()));
      }
    } else if (k == "hbresp") {
      m->set_type(raftpb::MsgHeartbeatResp);
      m->set_term(g_.P(0.9) ? tm : SomeTerm(false));
      if (m->term() == 0) return false;
      if (!ctxs_.empty() && g_.P(0.6)) m->set_context(ctxs_[g_.P(0.7) ? ctxs_.size() - 1 - g_.Below(std::min<size_t>(3, ctxs_.size())) : g_.Below(ctxs_.size())]);
    } else if (k == "ridx") {
      m->set_type(raftpb::MsgReadIndex);
      if (g_.P(0.5)) m->set_from(Other());
      m->add_entries()->set_data(Ctx());
    } else if (k == "ridxresp") {
      m->set_type(raftpb::MsgReadIndexResp);
      m->set_term(SomeTerm(true));
      m->set_index(Ix(0, last + 2));
      int n = g_.P(0.85) ? 1 : g_.P(0.5) ? 0 : 2;
      for (int i = 0; i < n; i++) m->add_entries()->set_data(Ctx());
    } else if (k == "prop") {
      m->set_type(raftpb::MsgProp);
      int n = g_.In(1, bulk_ ? 80 : 3);
      for (int i = 0; i < n; i++) {
        auto* e = m->add_entries();
        if (g_.P(0.25)) SomeChange(e);
        else e->set_data(Data());
      }
    } else if (k == "xfer") {
      m->set_type(raftpb::MsgTransferLeader);
      if (g_.P(0.1)) m->set_from(Me());
    } else if (k == "tnow") {
      m->set_type(raftpb::MsgTimeoutNow);
      m->set_term(SomeTerm(true));
    } else {
      const std::vector<raftpb::MessageType> ts = {raftpb::MsgHup, raftpb::MsgBeat, raftpb::MsgUnreachable, raftpb::MsgSnapStatus, raftpb::MsgCheckQuorum};
      m->set_type(g_.Pick(ts));
      if (g_.P(0.5)) m->set_from(Me());
    }
    return true;
  }
  std::string Ctx() {
    if (!ctxs_.empty() && g_.P(0.12)) return g_.Pick(ctxs_);
    ctxs_.push_back("c" + std::to_string(++reads_));
    return ctxs_.back();
  }

  // An answer to something the node has sent.
  bool Answer(raftpb::Message* r) {
    if (sent_.empty()) return false;
    size_t k = g_.Below(sent_.size());
    raftpb::Message m = sent_[k];
    if (g_.P(0.6)) sent_.erase(sent_.begin() + k);
    r->set_from(m.to());
    r->set_to(Me());
    r->set_term(m.term());
    switch (m.type()) {
      case raftpb::MsgApp:
        r->set_type(raftpb::MsgAppResp);
        if (g_.P(0.75)) {
          r->set_index(m.index() + m.entries_size());
        } else {
          r->set_reject(true);
          r->set_index(m.index());
          uint64_t h = Ix(0, m.index());
          r->set_rejecthint(h);
          r->set_logterm(h == 0 ? 0 : Tm(0, m.logterm()));
        }
        return true;
      case raftpb::MsgSnap:
        if (g_.P(0.4)) {
          rec_->SnapSt(nd_, m.to(), g_.P(0.4));
          return false;
        }
        r->set_type(raftpb::MsgAppResp);
        r->set_index(m.snapshot().metadata().index());
        return true;
      case raftpb::MsgHeartbeat:
        r->set_type(raftpb::MsgHeartbeatResp);
        r->set_context(m.context());
        return true;
      case raftpb::MsgVote:
      case raftpb::MsgPreVote:
        r->set_type(m.type() == raftpb::MsgVote ? raftpb::MsgVoteResp : raftpb::MsgPreVoteResp);
        if (g_.P(0.3)) r->set_reject(true);
        if (m.type() == raftpb::MsgPreVote && r->reject()) r->set_term(g_.P(0.6) ? m.term() - 1 : m.term());
        return r->term() > 0;
      case raftpb::MsgReadIndex:
        r->set_type(raftpb::MsgReadIndexResp);
        r->set_term(R()->Term());
        r->set_index(R()->GetRaftLog()->Committed() + g_.Below(2));
        *r->mutable_entries() = m.entries();
        return r->term() > 0;
      case raftpb::MsgTimeoutNow:
        r->set_type(raftpb::MsgVote);
        r->set_term(m.term() + 1);
        r->set_index(R()->GetRaftLog()->LastIndex());
        r->set_logterm(TermAt(r->index()));
        r->set_context("CampaignTransfer");
        return true;
      default:
        return false;
    }
  }

  template <class M> std::string PickW(const M& w) {
    double tot = 0;
    for (auto& kv : w) tot += kv.second;
    double x = tot * (g_.Below(1000000) / 1000000.0);
    for (auto& kv : w) {
      if (x < kv.second) return kv.first;
      x -= kv.second;
    }
    return w.begin()->first;
  }

  // A member the leader tracks in the given state, if there is one, or anybody.
  uint64_t InState(StateType s) {
    std::vector<uint64_t> ids;
    if (R()->State() == kLeader)
      for (auto& kv : R()->GetTracker().GetProgressMap()) if (kv.first != Me() && kv.second->State() == s) ids.push_back(kv.first);
    return !ids.empty() && g_.P(0.8) ? g_.Pick(ids) : ib_ + g_.In(1, 6);
  }

  void Act() {
    if (!nd_.up) {
      Restart(nd_);
      return;
    }
    std::string a = PickW(w_);
    if (a == "tick") {
      int n = g_.P(0.7) ? 1 : g_.In(1, slow_ ? 300 : 6);
      for (int i = 0; i < n; i++) rec_->Tick(nd_);
    } else if (a == "tickq") {
      rec_->TickQ(nd_);
    } else if (a == "msg") {
      raftpb::Message m;
      if (Plausible(PickW(mw_), &m)) rec_->Step(nd_, m);
    } else if (a == "answer") {
      raftpb::Message m;
      if (Answer(&m)) rec_->Step(nd_, m);
    } else if (a == "ready") {
      if (nd_.rn->HasReady() || g_.P(0.05)) { NextStage(nd_); Finish(nd_); }
    } else if (a == "stage") {
      if (nd_.stage != 0 || nd_.rn->HasReady()) NextStage(nd_);
    } else if (a == "prop") {
      rec_->Prop(nd_, Data());
    } else if (a == "propcc") {
      raftpb::Entry e;
      SomeChange(&e);
      raftpb::ConfChangeV2 c2;
      if (e.type() == raftpb::EntryConfChange) {
        raftpb::ConfChange c1;
        c1.ParseFromString(e.data());
        rec_->PropCC(nd_, c1);
      } else {
        c2.ParseFromString(e.data());
        rec_->PropCC(nd_, c2);
      }
      if (changed_ && g_.P(0.1)) rec_->Xfer(nd_, changed_);
    } else if (a == "read") {
      rec_->Read(nd_, Ctx(), false);
    } else if (a == "xfer") {
      rec_->Xfer(nd_, changed_ && g_.P(0.3) ? changed_ : ib_ + g_.In(1, 6));
    } else if (a == "camp") {
      rec_->Camp(nd_);
    } else if (a == "crash") {
      rec_->Crash(nd_);
    } else if (a == "snap") {
      MaybeSnapshot(nd_);
    } else if (a == "compact") {
      MaybeCompact(nd_);
    } else if (a == "unreach") {
      rec_->Unreach(nd_, InState(StateType::kReplicate));
    } else if (a == "report") {
      rec_->SnapSt(nd_, InState(StateType::kSnapshot), g_.P(0.5));
    } else if (a == "postpone") {
      rec_->Postpone(nd_, !nd_.st->postpone);
    }
  }

  Profile pf_;
  Node nd_;
  std::vector<raftpb::Message> sent_;
  std::vector<std::string> ctxs_;
  std::map<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, raftpb::Entry>> known_;   // (index, term): term before, entry
  uint64_t ib_ = 0, xb_ = 0, tb_ = 0;     // what ids, indexes and terms start from
  long count_ = 0, reads_ = 0;
  bool slow_ = false, bulk_ = false;      // long timeouts; long logs and large entries
  std::map<std::string, double> w_ = {
      {"tick", 9}, {"tickq", 0.3}, {"msg", 45}, {"answer", 26}, {"ready", 22}, {"stage", 16}, {"prop", 9},
      {"propcc", 2.5}, {"read", 3}, {"xfer", 1.2}, {"camp", 1.2}, {"crash", 1}, {"snap", 2}, {"compact", 2},
      {"unreach", 1}, {"report", 1}, {"postpone", 0.5}};
  std::map<std::string, double> mw_ = {
      {"app", 16}, {"hb", 5}, {"snap", 2.5}, {"vote", 5}, {"prevote", 4}, {"voteresp", 4}, {"prevoteresp", 3},
      {"appresp", 12}, {"hbresp", 5}, {"ridx", 2}, {"ridxresp", 1}, {"prop", 3}, {"xfer", 1}, {"tnow", 1}, {"local", 0.6}};
};
}  // namespace h
