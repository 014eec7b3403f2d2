// Random executions of a whole cluster of real nodes.
#pragma once
#include "core.h"

namespace h {

struct Profile {
  std::map<std::string, double> w = {
      {"tick", 18}, {"deliver", 40}, {"ready", 22}, {"stage", 12}, {"prop", 9}, {"propcc", 2}, {"batch", 0.7},
      {"read", 2.5}, {"xfer", 0.8}, {"camp", 0.8}, {"crash", 0.8}, {"restart", 4}, {"cut", 0.8}, {"heal", 1.2},
      {"snap", 2.5}, {"compact", 2.5}, {"unreach", 0.8}, {"drop", 2}, {"dup", 2}, {"tickq", 0.2}, {"postpone", 0.3},
      {"report", 3}, {"round", 2.5}, {"forge", 0.6}};
  std::map<std::string, double> sw;   // factors for the actions and messages of solo runs
  int steps = 160;
  double final_p = 0.5;
  double pv = 0.5, cq = 0.5, lease = 0.1, dpf = 0.15, small = 0.5;
  double boot = 0.5;
  double solo_voter = 0.12;
  double bulk = 0.02;      // share of runs with long logs
  double slow = 0.02;      // share of runs with long timeouts
  double big = 0.25;       // share of runs with huge ids, and with huge terms and indexes
  double swarm = 0.4;      // share of runs with randomly changed weights
};

struct Net {
  std::vector<raftpb::Message> q;
};

// The application around one node: handling of Ready, restarts, snapshots, compaction.
class Base {
 public:
  Base(Recorder* rec, Rng* rng) : rec_(rec), g_(*rng) {}
  virtual ~Base() = default;

 protected:
  virtual void SendAll(Node& nd) = 0;
  void NextStage(Node& nd) {
    switch (nd.stage) {
      case 0: rec_->TakeReady(nd); break;
      case 1: rec_->Persist(nd); break;
      case 2: SendAll(nd); break;
      case 3: rec_->Apply(nd); break;
      case 4: rec_->Advance(nd); break;
    }
  }
  void Finish(Node& nd) {
    while (nd.stage != 0) NextStage(nd);
  }
  void FullReady(Node& nd, int limit = 6) {
    Finish(nd);
    for (int k = 0; k < limit && nd.rn->HasReady(); k++) {
      NextStage(nd);
      Finish(nd);
    }
  }
  void Crash(Node& nd) {
    rec_->Crash(nd);
  }
  // Bring a node back from what it had made durable.
  void Restart(Node& nd) {
    auto hs = std::get<0>(nd.st->InitialState());
    if (g_.P(0.5)) hs = nd.synced;      // an unsynced write may be lost
    auto snap = std::get<0>(nd.st->MemoryStorage::SnapShot());
    uint64_t si = snap->metadata().index();
    uint64_t applied = 0;
    int v = g_.Below(3);
    if (v == 0) {
      auto fresh = std::make_shared<Store>(rec_->logger());
      uint64_t last = std::get<0>(nd.st->LastIndex());
      if (si > 0) fresh->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*snap));
      if (last > si) {
        uint64_t first = std::max(std::get<0>(nd.st->FirstIndex()), si + 1);
        auto [es, s] = nd.st->Entries(first, last + 1, UINT64_MAX);
        EntryPtrs cp;
        for (auto& e : es) cp.push_back(std::make_shared<raftpb::Entry>(*e));
        fresh->Append(cp);
      }
      nd.st = fresh;
      if (g_.P(0.5)) applied = si;
    } else {
      applied = si;
      if (v == 2 && nd.hist.count(nd.app.applied)) {
        bool conf = false;
        for (auto i : nd.confs) if (i > si && i <= nd.app.applied) conf = true;
        if (nd.app.applied > si && !conf && nd.app.applied <= std::get<0>(nd.st->LastIndex()) &&
            nd.app.applied <= std::get<0>(nd.st->InitialState()).commit()) {
          applied = nd.app.applied;
          hs = std::get<0>(nd.st->InitialState());
        }
      }
    }
    nd.st->SetHardState(hs);
    nd.synced = hs;
    AppState a;
    if (applied > si && nd.hist.count(applied)) {
      a = nd.hist[applied];
    }
    bool keep = applied > si;
    rec_->Create(nd, applied);
    if (keep) {
      nd.app = a;
    } else if (si > 0) {
      rec_->RestoreApp(nd, *snap);
    } else {
      nd.app = AppState();
    }
    for (auto it = nd.hist.begin(); it != nd.hist.end();) it = it->first > nd.app.applied ? nd.hist.erase(it) : std::next(it);
    rec_->Note("\"e\":\"app\",\"n\":" + N(nd.id) + ",\"ai\":" + N(nd.app.applied));
    // nothing had been stored yet: a founding member has to begin anew
    if (si == 0 && std::get<0>(nd.st->LastIndex()) == 0 && !nd.founders.empty()) rec_->Boot(nd, nd.founders);
  }

  void MaybeSnapshot(Node& nd) {
    auto si = std::get<0>(nd.st->MemoryStorage::SnapShot())->metadata().index();
    if (nd.stage != 0 && nd.stage != 4) Finish(nd);
    if (nd.app.applied == 0) return;
    uint64_t i = nd.app.applied;
    if (nd.app.applied > si + 1 && g_.P(0.4)) i = g_.In(si + 1, nd.app.applied);
    if (g_.P(0.05)) i = g_.In(si > 2 ? si - 2 : 0, si);
    if (!nd.hist.count(i)) return;
    bool same = i > si && si > 0 && CSJson(nd.hist[i].cs) == CSJson(std::get<0>(nd.st->MemoryStorage::SnapShot())->metadata().conf_state());
    if (i > std::get<0>(nd.st->LastIndex()) || (i > si && i < std::get<0>(nd.st->FirstIndex()))) return;
    // the hard state has to cover the snapshot before the log is cut
    if (std::get<0>(nd.st->InitialState()).commit() < i) return;
    if (nd.hist[i].cs.voters_size() == 0) return;
    rec_->MakeSnapshot(nd, i, same && g_.P(0.3));
  }
  void MaybeCompact(Node& nd) {
    if (nd.stage != 0) Finish(nd);
    auto si = std::get<0>(nd.st->MemoryStorage::SnapShot())->metadata().index();
    uint64_t ap = nd.rn->GetRaft()->GetRaftLog()->Applied();
    uint64_t lim = std::min(si, ap);
    // entries that were overwritten behind a Ready may be unstable again although applied: those stay
    if (auto un = nd.rn->GetRaft()->GetRaftLog()->UnstableEntries(); !un.empty()) lim = std::min(lim, un.front()->index() - 1);
    uint64_t first = std::get<0>(nd.st->FirstIndex());
    if (g_.P(0.05)) {
      rec_->Compact(nd, g_.In(first > 3 ? first - 3 : 0, first - 1));
      return;
    }
    if (lim < first) return;
    rec_->Compact(nd, g_.P(0.6) ? lim : g_.In(first, lim));
  }
  void Report(Node& nd) {
    if (nd.reports.empty()) return;
    auto r = nd.reports.front();
    nd.reports.erase(nd.reports.begin());
    rec_->SnapSt(nd, r.first, r.second);
  }


  Recorder* rec_;
  Rng& g_;
};

class Cluster : public Base {
 public:
  Cluster(Recorder* rec, Rng* rng, const Profile& pf) : Base(rec, rng), pf_(pf) {}

  int kIds = 5;                    // nodes that can take part
  uint64_t changed_ = 0;           // the member the latest proposed change is about
  bool bulk_ = false;              // long logs
  bool member_ = false;
  bool mixed_ = false;             // every node has timers of its own: a fast one that cannot win may keep the others from electing
  static constexpr long kLines = 5000;
  int patience_ = 0;               // rounds within which a healthy cluster has to converge
  uint64_t AnyId() { return ib_ + g_.In(1, kIds); }
  bool Known(uint64_t id) const { return id > ib_ && id <= ib_ + kIds; }

  void Setup() {
    Conf cf;
    if (g_.P(pf_.big)) ib_ = kBase;
    uint64_t xb = g_.P(pf_.big) ? kBase : 0, tb = g_.P(pf_.big) ? kBase : 0;
    cf.pv = g_.P(pf_.pv);
    cf.cq = g_.P(pf_.cq);
    cf.lease = cf.cq && g_.P(pf_.lease);
    auto timers = [&]() {
      cf.et = g_.P(0.88) ? g_.In(3, 5) : g_.In(2, 12);
      cf.ht = g_.P(0.75) ? 1 : g_.P(0.7) ? std::min<int64_t>(2, cf.et - 1) : g_.In(1, cf.et - 1);
    };
    timers();
    bulk_ = g_.P(pf_.bulk);
    if (bulk_) pf_.w["batch"] = 5;
    mixed_ = g_.P(0.08);
    preseed_ = !g_.P(pf_.boot);
    size_t n = g_.P(pf_.solo_voter) ? g_.In(1, 2) : g_.P(0.72) ? 3 : g_.P(0.8) ? g_.In(4, 5) : g_.In(6, 7);
    if (n > 5 || g_.P(0.05)) kIds = 7;
    for (uint64_t i = 1; i <= n; i++) voters_.push_back(ib_ + i);
    for (uint64_t i = ib_ + 1; i <= ib_ + kIds; i++) {
      Node& nd = nodes_[i];
      nd.id = i;
      if (mixed_) cf.et = g_.In(3, 12), cf.ht = 1;
      patience_ = std::max<int>(patience_, 30 * cf.et + 60 + (bulk_ ? 400 : 0));
      nd.cf = cf;
      nd.cf.dpf = g_.P(pf_.dpf);
      bool sm = g_.P(pf_.small);
      const std::vector<uint64_t> lim = {0, 12, 30, 60};
      nd.cf.maxmsg = sm ? g_.Pick(lim) : UINT64_MAX;
      nd.cf.maxcomm = sm ? g_.Pick(lim) : UINT64_MAX;
      nd.cf.maxunc = g_.P(pf_.small * 0.6) ? g_.In(1, 3) * 12 : 0;
      nd.cf.infl = bulk_ ? g_.In(2, sm ? 20 : 200) : sm ? g_.In(1, 4) : 16;
      // a message that overtakes others costs a follower a round per entry: long logs go in larger pieces
      if (bulk_ && sm && g_.P(0.8)) nd.cf.maxmsg = g_.In(4, 60) * 30;
      nd.st = std::make_shared<Store>(rec_->logger());
    }
    anchor_ = voters_[g_.Below(voters_.size())];
    raftpb::Snapshot s;
    if (preseed_) {
      s.mutable_metadata()->set_index(xb + g_.In(3, 6));
      s.mutable_metadata()->set_term(tb + g_.In(1, 2));
      auto* cs = s.mutable_metadata()->mutable_conf_state();
      for (auto v : voters_) cs->add_voters(v);
      if (n < kIds && g_.P(0.4)) {
        cs->add_learners(ib_ + n + 1);
      } else if (n >= 2 && g_.P(0.2)) {   // start in a joint configuration
        cs->add_voters_outgoing(anchor_);
        if (n < kIds) cs->add_voters_outgoing(ib_ + n + 1);
        cs->set_auto_leave(g_.P(0.5));
      }
      s.set_data("s" + Hex(7));
      // hash of nothing: the digest every application starts with
    }
    uint64_t last = preseed_ ? n + (s.metadata().conf_state().learners_size() || s.metadata().conf_state().voters_outgoing_size() > 1 ? 1 : 0) : n;
    if (preseed_) rec_->Note("\"e\":\"seed\",\"i\":" + N(s.metadata().index()) + ",\"dg\":" + Q(Hex(7)) + ",\"cs\":" + CSJson(s.metadata().conf_state()));
    bool bare = !tb && g_.P(0.06);          // the storage was filled from a snapshot alone
    for (uint64_t i = ib_ + 1; i <= ib_ + last; i++) {
      Node& nd = nodes_[i];
      if (preseed_) {
        nd.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(s));
        raftpb::HardState hs;
        hs.set_term(s.metadata().term());
        hs.set_commit(s.metadata().index());
        if (bare) hs.Clear();
        nd.st->SetHardState(hs);
        nd.synced = hs;
        rec_->Create(nd, g_.P(0.5) ? 0 : s.metadata().index());
        rec_->RestoreApp(nd, s);
      } else {
        rec_->Create(nd, 0);
        nd.founders = voters_;
        rec_->Boot(nd, voters_);
        if (g_.P(0.05)) rec_->Boot(nd, {});
      }
    }
  }

  std::vector<Node*> Up() {
    std::vector<Node*> r;
    for (auto& kv : nodes_) if (kv.second.up) r.push_back(&kv.second);
    return r;
  }
  Node* AnyUp() {
    auto u = Up();
    return u.empty() ? nullptr : g_.Pick(u);
  }
  Node* Leader() {
    Node* best = nullptr;
    for (auto& kv : nodes_)
      if (kv.second.up && kv.second.rn->GetRaft()->State() == kLeader &&
          (!best || kv.second.rn->GetRaft()->Term() > best->rn->GetRaft()->Term()))
        best = &kv.second;
    return best;
  }

  void SendAll(Node& nd) override {
    for (auto& m : rec_->SendOut(nd)) {
      if (!Known(m.to())) continue;
      net_.q.push_back(m);
    }
    // a network that is too full loses messages
    while (net_.q.size() > 60) {
      Lost(net_.q.front());
      net_.q.erase(net_.q.begin());
    }
  }
  void Lost(const raftpb::Message& m) {
    if (m.type() == raftpb::MsgSnap && nodes_[m.from()].up) nodes_[m.from()].reports.push_back({m.to(), true});
  }
  bool Blocked(uint64_t a, uint64_t b) { return cut_.count({a, b}) > 0; }

  void Deliver(size_t k, bool keep) {
    raftpb::Message m = net_.q[k];
    bool dup = keep && m.type() != raftpb::MsgProp && m.type() != raftpb::MsgSnap;
    if (!dup) net_.q.erase(net_.q.begin() + k);
    if (Blocked(m.from(), m.to())) {
      if (!dup) Lost(m);
      return;
    }
    if (m.type() != raftpb::MsgProp) {
      old_.push_back(m);
      if (old_.size() > 120) old_.erase(old_.begin() + g_.Below(60));
    }
    Node& to = nodes_[m.to()];
    if (!to.up && to.inc == 0) {
      rec_->Create(to, 0);            // a node that joins starts empty
    }
    if (!to.up) {
      if (!dup) Lost(m);
      return;
    }
    rec_->Step(to, m);
    if (m.type() == raftpb::MsgSnap && nodes_[m.from()].up)
      nodes_[m.from()].reports.push_back({m.to(), false});
  }

  raftpb::ConfState View(Node& nd) { return nd.rn->GetRaft()->GetTracker().ConfState(); }

  void ProposeConf(Node& nd) {
    bool joint = View(nd).voters_outgoing_size() > 0;
    double x = g_.P(0.5) ? 0 : 1;
    raftpb::ConfChangeV2 cc;
    if (joint ? g_.P(0.6) : g_.P(0.03)) {
      // leave the joint configuration
      if (g_.P(0.04)) cc.set_context("rej");
      rec_->PropCC(nd, cc);
      return;
    }
    std::vector<uint64_t> ids;
    for (uint64_t i = ib_ + 1; i <= ib_ + kIds; i++) if (i != anchor_) ids.push_back(i);
    auto type = [&](uint64_t id) {
      (void)id;
      double r = g_.Below(100);
      return r < 40 ? raftpb::ConfChangeAddNode : r < 68 ? raftpb::ConfChangeRemoveNode
             : r < 94 ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeUpdateNode;
    };
    bool rej = g_.P(0.06);
    if (x == 0) {
      raftpb::ConfChange c1;
      uint64_t id = g_.P(0.04) ? 0 : g_.Pick(ids);
      if (g_.P(0.05)) id = anchor_;
      c1.set_node_id(id);
      c1.set_type(id == anchor_ ? raftpb::ConfChangeAddNode : type(id));
      changed_ = id;
      if (rej) c1.set_context("rej");
      rec_->PropCC(nd, c1);
      return;
    }
    int k = g_.In(1, 3);
    std::set<uint64_t> used;
    for (int i = 0; i < k; i++) {
      uint64_t id = g_.P(0.03) ? 0 : g_.Pick(ids);
      if (!used.insert(id).second) continue;
      auto* ch = cc.add_changes();
      ch->set_node_id(id);
      ch->set_type(type(id));
      changed_ = id;
    }
    int t = g_.Below(4);
    if (t == 1) cc.set_transition(raftpb::ConfChangeTransitionJointImplicit);
    if (t == 2) cc.set_transition(raftpb::ConfChangeTransitionJointExplicit);
    if (rej) cc.set_context("rej");
    rec_->PropCC(nd, cc);
  }

  std::string Payload() {
    int r = g_.Below(10);
    if (r == 0) return "";
    std::string d = "p" + std::to_string(++count_);
    if (r >= 7) d += std::string(g_.Below(24), 'x');
    return d;
  }
  void Batch(Node& nd) {
    raftpb::Message m;
    m.set_type(raftpb::MsgProp);
    m.set_from(nd.id);
    int k = bulk_ ? g_.In(2, 120) : g_.In(2, 3);
    for (int i = 0; i < k; i++) {
      auto* e = m.add_entries();
      if (g_.P(bulk_ ? 0.01 : 0.3)) {
        std::vector<uint64_t> ids;
        for (uint64_t x = ib_ + 1; x <= ib_ + kIds; x++) if (x != anchor_) ids.push_back(x);
        auto type = [&] { return g_.P(0.5) ? raftpb::ConfChangeAddLearnerNode : g_.P(0.7) ? raftpb::ConfChangeAddNode : raftpb::ConfChangeRemoveNode; };
        if (g_.P(0.6)) {
          raftpb::ConfChange c1;
          c1.set_node_id(g_.Pick(ids));
          c1.set_type(type());
          e->set_type(raftpb::EntryConfChange);
          e->set_data(c1.SerializeAsString());
        } else {
          raftpb::ConfChangeV2 c2;
          if (View(nd).voters_outgoing_size() > 0 ? g_.P(0.3) : g_.P(0.9)) {
            std::set<uint64_t> used;
            for (int n = g_.In(1, 2); n > 0; n--) {
              uint64_t id = g_.Pick(ids);
              if (!used.insert(id).second) continue;
              auto* ch = c2.add_changes();
              ch->set_node_id(id);
              ch->set_type(type());
            }
            int t = g_.Below(4);
            if (t == 1) c2.set_transition(raftpb::ConfChangeTransitionJointImplicit);
            if (t == 2) c2.set_transition(raftpb::ConfChangeTransitionJointExplicit);
          }
          e->set_type(raftpb::EntryConfChangeV2);
          e->set_data(c2.SerializeAsString());
        }
      } else {
        e->set_data(Payload());
      }
    }
    rec_->Step(nd, m);
  }

  // Everybody handles everything and time passes once.
  void Round(bool all, bool cuts) {
    for (auto* nd : Up()) {
      if (!all && g_.P(0.15)) continue;
      rec_->Tick(*nd);
    }
    for (int k = 0; k < 6; k++) {
      for (auto* nd : Up()) FullReady(*nd);
      size_t n = net_.q.size();
      if (n == 0) break;
      for (size_t j = 0; j < n && !net_.q.empty(); j++) {
        if (!cuts) cut_.clear();
        Deliver(0, false);
      }
      for (auto* nd : Up()) while (!nd->reports.empty()) Report(*nd);
    }
    for (auto* nd : Up()) FullReady(*nd);
  }

  bool Converged() {
    Node* l = Leader();
    if (!l) return false;
    auto& cfg = l->rn->GetRaft()->GetTracker().GetConfig();
    if (cfg.voters.Outgoing().Size() > 0 && cfg.auto_leave) return false;
    auto* ll = l->rn->GetRaft()->GetRaftLog();
    uint64_t last = ll->LastIndex();
    uint64_t dg = l->app.digest;
    for (auto& p : l->rn->GetRaft()->GetTracker().GetProgressMap()) {
      auto it = nodes_.find(p.first);
      if (it == nodes_.end() || !it->second.up) return false;
      auto* r = it->second.rn->GetRaft();
      auto* lg = r->GetRaftLog();
      if (lg->LastIndex() != last || lg->Committed() != last || lg->Applied() != last) return false;
      if (r->Lead() != l->id || it->second.app.digest != dg) return false;
    }
    return ll->Committed() == last && ll->Applied() == last;
  }

  // A member that joined after the latest snapshot cannot be restored from it: the
  // application takes a newer one.
  void Refresh() {
    for (auto* nd : Up()) {
      if (nd->rn->GetRaft()->State() != kLeader) continue;
      auto cs = std::get<0>(nd->st->MemoryStorage::SnapShot())->metadata().conf_state();
      std::set<uint64_t> in;
      for (auto v : cs.voters()) in.insert(v);
      for (auto v : cs.learners()) in.insert(v);
      for (auto v : cs.voters_outgoing()) in.insert(v);
      bool missing = false;
      for (auto& p : nd->rn->GetRaft()->GetTracker().GetProgressMap()) if (!in.count(p.first)) missing = true;
      uint64_t i = nd->app.applied;
      if (missing && nd->stage == 0 && i > 0 && nd->hist.count(i) && i <= std::get<0>(nd->st->LastIndex()) &&
          i >= std::get<0>(nd->st->FirstIndex()))
        rec_->MakeSnapshot(*nd, i, false);
    }
  }

  // Can anyone still be elected?  Not when only members that have applied their own removal hold
  // what was committed last, and the others do not know it is committed.
  bool Electable() {
    auto up = Up();
    for (auto* nd : up) {
      auto* lg = nd->rn->GetRaft()->GetRaftLog();
      auto cs = View(*nd);
      auto half = [&](const auto& voters, bool must) {
        int all = 0, yes = 0;
        bool self = false;
        for (auto v : voters) {
          all++;
          self = self || v == nd->id;
          for (auto* o : up) {
            if (o->id != v) continue;
            auto* ol = o->rn->GetRaft()->GetRaftLog();
            if (ol->LastTerm() < lg->LastTerm() || (ol->LastTerm() == lg->LastTerm() && ol->LastIndex() <= lg->LastIndex())) yes++;
          }
        }
        member_ = member_ || self;
        return all == 0 ? !must : yes * 2 > all;
      };
      member_ = false;
      bool can = half(cs.voters(), true) && half(cs.voters_outgoing(), false) && member_;
      if (can) return true;
    }
    return false;
  }

  void Final() {
    cut_.clear();
    for (auto& kv : nodes_)
      if (!kv.second.up && kv.second.inc > 0) Restart(kv.second);
    for (auto& kv : nodes_) if (kv.second.st->postpone) rec_->Postpone(kv.second, false);
    for (auto* nd : Up()) while (!nd->reports.empty()) Report(*nd);
    bool ok = false;
    int r = 0;
    for (; r < patience_ && !ok; r++) {
      Round(true, false);
      ok = Converged();
      if (rec_->out()->lines > 3 * kLines) return;     // too long to tell
      if (!ok && r % 10 == 9) Refresh();
    }
    // progress is still possible: a new proposal gets through
    bool ok2 = true;
    if (ok) {
      Node* l = Leader();
      if (l->rn->GetRaft()->GetTracker().GetProgress(l->id) != nullptr && l->rn->GetRaft()->LeadTransferee() == 0) {
        std::string d = "f" + std::to_string(++count_);
        rec_->Prop(*l, d);
        ok2 = false;
        for (int k = 0; k < patience_ && !ok2; k++) {
          Round(true, false);
          ok2 = Converged();
          if (rec_->out()->lines > 4 * kLines) return;
        }
      }
    }
    if (!ok && (mixed_ || !Electable())) return;
    rec_->Note("\"e\":\"final\",\"cv\":" + B(ok) + ",\"cp\":" + B(ok2) + ",\"r\":" + N(r));
  }

  void Act() {
    double tot = 0;
    for (auto& kv : pf_.w) tot += kv.second;
    double x = tot * (g_.Below(1000000) / 1000000.0);
    std::string a;
    for (auto& kv : pf_.w) {
      if (x < kv.second) { a = kv.first; break; }
      x -= kv.second;
    }
    Node* nd = AnyUp();
    Node* ld = Leader();
    auto lead_or = [&](double p) { return ld && g_.P(p) ? ld : nd; };
    if (a == "restart") {
      std::vector<Node*> d;
      for (auto& kv : nodes_) if (!kv.second.up && kv.second.inc > 0) d.push_back(&kv.second);
      if (!d.empty()) Restart(*g_.Pick(d));
      return;
    }
    if (!nd) return;
    if (a == "tick") {
      if (g_.P(0.3)) { for (auto* x2 : Up()) rec_->Tick(*x2); }
      else rec_->Tick(*nd);
    } else if (a == "deliver" || a == "dup" || a == "drop") {
      if (net_.q.empty()) return;
      size_t k = g_.P(0.7) ? 0 : g_.Below(net_.q.size());
      if (a == "drop") {
        Lost(net_.q[k]);
        net_.q.erase(net_.q.begin() + k);
      } else {
        Deliver(k, a == "dup");
      }
    } else if (a == "ready") {
      if (nd->rn->HasReady() || g_.P(0.05)) { NextStage(*nd); Finish(*nd); }
    } else if (a == "stage") {
      if (nd->stage != 0 || nd->rn->HasReady()) NextStage(*nd);
    } else if (a == "prop") {
      rec_->Prop(*lead_or(0.75), Payload());
    } else if (a == "propcc") {
      ProposeConf(*lead_or(0.8));
    } else if (a == "batch") {
      Batch(*lead_or(0.8));
    } else if (a == "read") {
      bool reuse = reads_ > 0 && g_.P(0.06);
      std::string c = "r" + std::to_string(reuse ? reads_ : ++reads_);
      if (g_.P(0.02)) c = "";
      rec_->Read(*lead_or(0.6), c, !reuse && !c.empty());
    } else if (a == "xfer") {
      rec_->Xfer(*lead_or(0.8), changed_ && g_.P(0.3) ? changed_ : AnyId());
    } else if (a == "camp") {
      rec_->Camp(*nd);
    } else if (a == "crash") {
      Crash(*lead_or(0.3));
    } else if (a == "cut") {
      if (g_.P(0.3)) {
        cut_.insert({AnyId(), AnyId()});
      } else {
        std::set<uint64_t> side;
        if (ld && g_.P(0.4)) side.insert(ld->id);
        else for (uint64_t i = ib_ + 1; i <= ib_ + kIds; i++) if (g_.P(0.4)) side.insert(i);
        for (uint64_t i = ib_ + 1; i <= ib_ + kIds; i++)
          for (uint64_t j = ib_ + 1; j <= ib_ + kIds; j++)
            if (side.count(i) != side.count(j)) cut_.insert({i, j});
      }
    } else if (a == "heal") {
      cut_.clear();
    } else if (a == "snap") {
      MaybeSnapshot(*lead_or(0.4));
    } else if (a == "compact") {
      MaybeCompact(*lead_or(0.4));
    } else if (a == "unreach") {
      rec_->Unreach(*lead_or(0.8), AnyId());
    } else if (a == "forge") {
      // a copy of an old message shows up
      if (old_.empty()) return;
      const auto& m = g_.Pick(old_);
      if (nodes_[m.to()].up) rec_->Step(nodes_[m.to()], m);
    } else if (a == "tickq") {
      rec_->TickQ(*nd);
    } else if (a == "postpone") {
      rec_->Postpone(*nd, !nd->st->postpone);
    } else if (a == "report") {
      if (g_.P(0.03)) rec_->SnapSt(*nd, AnyId(), g_.P(0.5));
      else Report(*nd);
    } else if (a == "round") {
      int k = g_.In(1, 4);
      for (int i = 0; i < k; i++) Round(g_.P(0.5), true);
    }
  }

  void Run() {
    if (g_.P(pf_.swarm)) {
      const std::vector<double> f = {0, 0.3, 1, 1, 3};
      for (auto& kv : pf_.w)
        if (kv.first != "ready" && kv.first != "restart" && kv.first != "heal") kv.second *= g_.Pick(f);
    }
    Setup();
    if (g_.P(0.8)) {
      int k = g_.In(2, 9);
      for (int i = 0; i < k; i++) Round(true, true);
    }
    for (int i = 0; i < pf_.steps && rec_->out()->lines < kLines; i++) Act();
    if (g_.P(pf_.final_p)) Final();
  }

 private:
  Profile pf_;
  std::map<uint64_t, Node> nodes_;
  std::vector<uint64_t> voters_;
  uint64_t anchor_ = 1;
  uint64_t ib_ = 0;
  bool preseed_ = false;
  Net net_;
  std::vector<raftpb::Message> old_;
  std::set<std::pair<uint64_t, uint64_t>> cut_;
  long count_ = 0, reads_ = 0;
};
}  // namespace h
